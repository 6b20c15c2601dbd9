#include "expr.hpp"
Ctx* CX = nullptr;
static const char* opn[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "=", "ult", "ule", "slt", "sle", "ite", "scaled", "fadd", "fsub", "fmul", "fdiv", "fsqrt", "frnd", "fneg", "fabs", "flt", "fle", "feq", "ffroms", "ffromu", "ftos", "ftou", "fcvt", "frem"};
std::string exprStr(E e, int d) {
  if (e->op == CONST) { char b[64]; snprintf(b, 64, "%llu:%u", (unsigned long long)e->c, e->width); return b; }
  if (e->op == VAR) return CX->vars[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->aux) s += "." + std::to_string(e->aux);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}

static E scaledITE(E c, E a, E b);
static E infITE(E c, E a, E b);
static E nzITE(E c, E a, E b);
E mkITE(E c, E a, E b) {
  if (a == b) return a;
  if (isC(c)) return c->c ? a : b;
  unsigned w = a->width;
  if (w == 1) {
    if (isC(a, 1) && isC(b, 0)) return c;
    if (isC(a, 0) && isC(b, 1)) return mkNot(c);
    if (isC(a, 1)) return mkOrB(c, b);
    if (isC(a, 0)) return mkAndB(mkNot(c), b);
    if (isC(b, 0)) return mkAndB(c, a);
    if (isC(b, 1)) return mkOrB(mkNot(c), a);
  }
  if (c->op == XOR && isC(c->k[1], 1)) return mkITE(c->k[0], b, a);
  if (a->op == ITE && a->k[0] == c) a = a->k[1];
  if (b->op == ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (a->op == SCALED && b->op == SCALED && a->aux == b->aux) return mkScaled(mkITE(c, a->k[0], b->k[0]), a->aux, w);
  if (a->op == SCALED || b->op == SCALED) if (E r = scaledITE(c, a, b)) return r;
  if (a->op == ITE || b->op == ITE) { if (E r = infITE(c, a, b)) return r; if (E r = nzITE(c, a, b)) return r; }
  return rawN(ITE, w, 0, c, a, b);
}

static bool commut(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }

// a == q * b + r with r < b and no wrap (by ranges)
static bool quotRem(E a, E b, E& q, E& r) {
  unsigned w = a->width; if (w > 64 || b->umin == 0) return false;
  auto isM = [&](E x) { return x->op == MUL && ((x->k[1] == b) || x->k[0] == b); };
  auto other = [&](E x) { return x->k[1] == b ? x->k[0] : x->k[1]; };
  auto fits = [&](E x) { return (u128)x->k[0]->umax * x->k[1]->umax <= mask64(w); };
  if (isM(a) && fits(a)) { q = other(a); r = mkC(0, w); return true; }
  if (a->op != ADD) return false;
  for (int i = 0; i < 2; i++) {
    E m = a->k[i], x = a->k[1 - i];
    if (isM(m) && fits(m) && x->umax < b->umin && (u128)m->k[0]->umax * m->k[1]->umax + x->umax <= mask64(w)) { q = other(m); r = x; return true; }
  }
  return false;
}
// sum of coefficient * term
static bool linTerms(E e, u128 k, unsigned w, std::vector<std::pair<E, u128>>& t, u128& c, int& budget) {
  if (--budget < 0) return false;
  if (isC(e)) { c += e->c * k; return true; }
  if (e->op == ADD) return linTerms(e->k[0], k, w, t, c, budget) && linTerms(e->k[1], k, w, t, c, budget);
  if (e->op == SUB) return linTerms(e->k[0], k, w, t, c, budget) && linTerms(e->k[1], (u128)0 - k, w, t, c, budget);
  if (e->op == MUL && isC(e->k[1])) return linTerms(e->k[0], k * e->k[1]->c, w, t, c, budget);
  if (e->op == SHL && isC(e->k[1]) && e->k[1]->c < w) return linTerms(e->k[0], k << (unsigned)e->k[1]->c, w, t, c, budget);
  for (auto& x : t) if (x.first == e) { x.second += k; return true; }
  t.push_back({e, k}); return true;
}
static E cancelSub(E a, E b) {
  unsigned w = a->width; if (w < 8 || w > 64) return nullptr;
  auto lin = [](E e) { return e->op == ADD || e->op == SUB; };
  if (!lin(a) && !lin(b)) return nullptr;
  std::vector<std::pair<E, u128>> ta, t; u128 c = 0, ca = 0; int budget = 24;
  if (!linTerms(a, 1, w, t, c, budget)) return nullptr;
  size_t na = t.size(); { int b2 = 24; if (!linTerms(b, 1, w, ta, ca, b2)) return nullptr; }
  if (!linTerms(b, (u128)0 - 1, w, t, c, budget)) return nullptr;
  size_t left = 0; for (auto& x : t) { x.second &= mask64(w); left += x.second != 0; }
  if (left + 1 >= na + ta.size()) return nullptr;   // nothing cancelled
  E r = nullptr; for (auto& x : t) if (x.second) {
    bool neg = (x.second >> (w - 1)) & 1; u128 m = neg ? ((u128)0 - x.second) & mask64(w) : x.second;
    E y = m == 1 ? x.first : (m & (m - 1)) == 0 ? mkBin(SHL, x.first, mkC(__builtin_ctzll((uint64_t)m), w)) : mkBin(MUL, x.first, mkC(m, w));
    r = !r ? (neg ? mkBin(SUB, mkC(0, w), y) : y) : mkBin(neg ? SUB : ADD, r, y);
  }
  c &= mask64(w); return !r ? mkC(c, w) : c ? mkBin(ADD, r, mkC(c, w)) : r;
}
E mkBin(Op op, E a, E b) {
  assert(a->width == b->width);
  unsigned w = a->width;
  bool cmp = op == EQ || (op >= ULT && op <= SLE);
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) { const Expr* k[3] = {a, b, nullptr}; return mkC(evalOp(op, rw, 0, k, a->c, b->c, 0), rw); }
  if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  switch (op) {
    case ADD:
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], mkC(a->k[1]->c + b->c, w));
      if (!isC(b) && a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
      if (!isC(b) && b->op == ADD && isC(b->k[1])) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
      if (a->op == SUB && a->k[1] == b) return a->k[0];
      if (b->op == SUB && b->k[1] == a) return b->k[0];
      break;
    case SUB:
      if (a == b) return mkC(0, w);
      if (isC(b)) return mkBin(ADD, a, mkC(-b->c, w));
      if (a->op == ADD && a->k[1] == b) return a->k[0];
      if (a->op == ADD && a->k[0] == b) return a->k[1];
      if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(SUB, a->k[0], b), a->k[1]);
      if (b->op == ADD && isC(b->k[1])) return mkBin(ADD, mkBin(SUB, a, b->k[0]), mkC(-b->k[1]->c, w));
      if (E r = cancelSub(a, b)) return r;
      break;
    case MUL:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && a->op == MUL && isC(a->k[1])) return mkBin(MUL, a->k[0], mkC(a->k[1]->c * b->c, w));
      if (isC(b) && a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(MUL, a->k[0], b), mkC(a->k[1]->c * b->c, w));
      if (isC(b) && a->op == SHL && isC(a->k[1]) && a->k[1]->c < w) return mkBin(MUL, a->k[0], mkC(b->c << (unsigned)a->k[1]->c, w));
      break;
    case UDIV:
      if (isC(b, 1)) return a;
      { E q, r; if (quotRem(a, b, q, r)) return q; }
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->c) s++; return mkBin(LSHR, a, mkC(s, w)); }
      if (w <= 64 && isC(b) && a->umax < b->c) return mkC(0, w);
      if (isC(b) && a->op == MUL && isC(a->k[1]) && a->k[1]->c == b->c && w <= 64 && (u128)a->k[0]->umax * b->c <= mask64(w)) return a->k[0];
      break;
    case UREM:
      if (isC(b, 1)) return mkC(0, w);
      { E q, r; if (quotRem(a, b, q, r)) return r; }
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(AND, a, mkC(b->c - 1, w));
      if (w <= 64 && b->umin > a->umax) return a;
      break;
    case SDIV:
      if (isC(b, 1)) return a;
      if (w <= 64 && a->smin >= 0 && b->smin > 0) return mkBin(UDIV, a, b);
      if (isC(b) && a->op == MUL && isC(a->k[1]) && a->k[1]->c == b->c && w <= 64) {
        i128 f = sextW(b->c, w); i128 lo = (i128)a->k[0]->smin * f, hi = (i128)a->k[0]->smax * f; if (lo > hi) std::swap(lo, hi);
        if (f > 0 && lo >= (i128)sext64(1ull << (w - 1), w) && hi <= (i128)(mask64(w) >> 1)) return a->k[0];
      }
      if (isC(b) && w <= 64 && a->op == SHL && isC(a->k[1]) && a->k[1]->c < 62 && ((u128)1 << (unsigned)a->k[1]->c) == b->c) {
        i128 f = b->c; i128 lo = (i128)a->k[0]->smin * f, hi = (i128)a->k[0]->smax * f;
        if (lo >= (i128)sext64(1ull << (w - 1), w) && hi <= (i128)(mask64(w) >> 1)) return a->k[0];
      }
      break;
    case SREM:
      if (w <= 64 && a->smin >= 0 && b->smin > 0) return mkBin(UREM, a, b);
      break;
    case AND:
      if (isC(b, 0)) return b;
      if (isC(b, maskW(w)) || a == b) return a;
      if (isC(b) && a->op == AND && isC(a->k[1])) return mkBin(AND, a->k[0], mkC(a->k[1]->c & b->c, w));
      if (w == 1 && ((a->op == XOR && isC(a->k[1], 1) && a->k[0] == b) || (b->op == XOR && isC(b->k[1], 1) && b->k[0] == a))) return mkC(0, 1);
      if (isC(b) && w <= 64) {
        u128 m = b->c;
        if ((m & (m + 1)) == 0 && a->umax <= m) return a;  // low mask covers range
        if ((m & (m + 1)) == 0 && m) { unsigned bits = 0; while (((u128)1 << bits) - 1 != m) bits++; return mkZExt(mkExtract(a, 0, bits), w); }
      }
      if (isC(b) && a->op == ZEXT) return mkZExt(mkBin(AND, a->k[0], mkC(b->c, a->k[0]->width)), w);
      break;
    case OR:
      if (isC(b, 0) || a == b) return a;
      if (isC(b, maskW(w))) return b;
      if (isC(b) && a->op == OR && isC(a->k[1])) return mkBin(OR, a->k[0], mkC(a->k[1]->c | b->c, w));
      if (w == 1 && ((a->op == XOR && isC(a->k[1], 1) && a->k[0] == b) || (b->op == XOR && isC(b->k[1], 1) && b->k[0] == a))) return mkC(1, 1);
      {  // (zext lo) | (hi << n) -> concat
        for (int s = 0; s < 2; s++) {
          E x = s ? b : a, y = s ? a : b;
          if (y->op == SHL && isC(y->k[1]) && y->k[1]->c < w && y->k[1]->c > 0) {
            unsigned n = (unsigned)y->k[1]->c;
            bool lowOnly = (x->op == ZEXT && x->k[0]->width <= n) || (w <= 64 && n < 64 && x->umax < (1ull << n));
            if (lowOnly) return mkConcat(mkExtract(y->k[0], 0, w - n), mkExtract(x, 0, n));
          }
          if (y->op == CONCAT && isC(y->k[1], 0)) {
            unsigned n = y->k[1]->width;
            bool lowOnly = (x->op == ZEXT && x->k[0]->width <= n) || (w <= 64 && n < 64 && x->umax < (1ull << n));
            if (lowOnly) return mkConcat(y->k[0], mkExtract(x, 0, n));
          }
        }
      }
      break;
    case XOR:
      if (isC(b, 0)) return a;
      if (a == b) return mkC(0, w);
      if (isC(b) && a->op == XOR && isC(a->k[1])) return mkBin(XOR, a->k[0], mkC(a->k[1]->c ^ b->c, w));
      if (w == 1 && isC(b, 1)) {
        // push negation into comparisons
        if (a->op == ULT) return mkBin(ULE, a->k[1], a->k[0]);
        if (a->op == ULE) return mkBin(ULT, a->k[1], a->k[0]);
        if (a->op == SLT) return mkBin(SLE, a->k[1], a->k[0]);
        if (a->op == SLE) return mkBin(SLT, a->k[1], a->k[0]);
      }
      break;
    case SHL:
      if (isC(b, 0)) return a;
      if (isC(b) && b->c >= w) return mkC(0, w);
      if (isC(b)) {
        unsigned n = (unsigned)b->c;
        if (a->op == SHL && isC(a->k[1]) && a->k[1]->c < w) return mkBin(SHL, a->k[0], mkC(a->k[1]->c + n, w));
        if (a->op == ZEXT && a->k[0]->width + n <= w && w <= 128 && a->k[0]->width + n == w) return mkConcat(a->k[0], mkC(0, n));
        if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(SHL, a->k[0], b), mkC(a->k[1]->c << n, w));
      }
      break;
    case LSHR:
      if (isC(b, 0)) return a;
      if (isC(b) && w <= 64 && b->c < w && (a->umin >> (unsigned)b->c) == (a->umax >> (unsigned)b->c)) return mkC(a->umin >> (unsigned)b->c, w);
      if (isC(b) && b->c >= w) return mkC(0, w);
      if (isC(b)) {
        unsigned n = (unsigned)b->c;
        return mkZExt(mkExtract(a, n, w - n), w);
      }
      break;
    case ASHR:
      if (isC(b, 0)) return a;
      if (isC(b) && w <= 64 && b->c < w && (a->smin >> (unsigned)b->c) == (a->smax >> (unsigned)b->c)) return mkC((u128)(uint64_t)(a->smin >> (unsigned)b->c) & mask64(w), w);
      if (w <= 64 && a->smin >= 0) return mkBin(LSHR, a, b);
      if (isC(b) && b->c < w) {
        unsigned n = (unsigned)b->c;
        if (a->op == SHL && a->k[1] == b) return mkSExt(mkExtract(a->k[0], 0, w - n), w);
      }
      break;
    case EQ:
      if (a == b) return mkC(1, 1);
      if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return mkNot(a); }
      if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkC(0, 1);
      if (w <= 64 && (a->smax < b->smin || b->smax < a->smin)) return mkC(0, 1);
      if (isC(b)) {
        if (a->op == ADD && isC(a->k[1])) return mkBin(EQ, a->k[0], mkC(b->c - a->k[1]->c, w));
        if (a->op == XOR && isC(a->k[1])) return mkBin(EQ, a->k[0], mkC(b->c ^ a->k[1]->c, w));
        if (a->op == ZEXT) { unsigned kw = a->k[0]->width; if (b->c > maskW(kw)) return mkC(0, 1); return mkBin(EQ, a->k[0], mkC(b->c, kw)); }
        if (a->op == SEXT) { unsigned kw = a->k[0]->width; if ((u128)(sextW(b->c, kw)) != (u128)sextW(b->c, w)) { return mkC(0, 1); } return mkBin(EQ, a->k[0], mkC(b->c, kw)); }
        if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) {
          bool x = a->k[1]->c == b->c, y = a->k[2]->c == b->c;
          return x ? (y ? mkC(1, 1) : a->k[0]) : (y ? mkNot(a->k[0]) : mkC(0, 1));
        }
        if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkITE(a->k[0], mkBin(EQ, a->k[1], b), mkBin(EQ, a->k[2], b));
        if (a->op == CONCAT) { unsigned lw = a->k[1]->width; return mkAndB(mkBin(EQ, a->k[0], mkC(b->c >> lw, a->k[0]->width)), mkBin(EQ, a->k[1], mkC(b->c, lw))); }
      } else {
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width) return mkBin(EQ, a->k[0], b->k[0]);
        if (a->op == SEXT && b->op == SEXT && a->k[0]->width == b->k[0]->width) return mkBin(EQ, a->k[0], b->k[0]);
        if (a->op == ADD && b->op == ADD && isC(a->k[1]) && isC(b->k[1])) return mkBin(EQ, a->k[0], mkBin(ADD, b->k[0], mkC(b->k[1]->c - a->k[1]->c, w)));
        if (a->op == ADD && isC(a->k[1]) && a->k[0] == b) return mkC(0, 1);
        if (b->op == ADD && isC(b->k[1]) && b->k[0] == a) return mkC(0, 1);
      }
      break;
    case ULT:
      if (a == b) return mkC(0, 1);
      if (w <= 64) { if (a->umax < b->umin) return mkC(1, 1); if (a->umin >= b->umax) return mkC(0, 1); }
      if (isC(b, 0)) return mkC(0, 1);
      if (isC(b, 1)) return mkBin(EQ, a, mkC(0, w));
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width) return mkBin(ULT, a->k[0], b->k[0]);
      if (a->op == ZEXT && isC(b) && b->c <= maskW(a->k[0]->width)) return mkBin(ULT, a->k[0], mkC(b->c, a->k[0]->width));
      if (b->op == ZEXT && isC(a) && a->c <= maskW(b->k[0]->width)) return mkBin(ULT, mkC(a->c, b->k[0]->width), b->k[0]);
      break;
    case ULE:
      if (a == b) return mkC(1, 1);
      if (w <= 64) { if (a->umax <= b->umin) return mkC(1, 1); if (a->umin > b->umax) return mkC(0, 1); }
      if (isC(a, 0)) return mkC(1, 1);
      if (isC(b, 0)) return mkBin(EQ, a, b);
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width) return mkBin(ULE, a->k[0], b->k[0]);
      if (a->op == ZEXT && isC(b) && b->c <= maskW(a->k[0]->width)) return mkBin(ULE, a->k[0], mkC(b->c, a->k[0]->width));
      if (b->op == ZEXT && isC(a) && a->c <= maskW(b->k[0]->width)) return mkBin(ULE, mkC(a->c, b->k[0]->width), b->k[0]);
      break;
    case SLT: case SLE:
      if (a == b) return mkC(op == SLE, 1);
      if (w <= 64) {
        if (op == SLT) { if (a->smax < b->smin) return mkC(1, 1); if (a->smin >= b->smax) return mkC(0, 1); }
        else { if (a->smax <= b->smin) return mkC(1, 1); if (a->smin > b->smax) return mkC(0, 1); }
        if (a->smin >= 0 && b->smin >= 0) return mkBin(op == SLT ? ULT : ULE, a, b);
      }
      if (a->op == SEXT && b->op == SEXT && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
      // x + c  <  y + d without overflow: move constants
      if (w <= 64 && isC(b) && a->op == ADD && isC(a->k[1])) {
        i128 c = sextW(a->k[1]->c, w); E x = a->k[0];
        i128 lo = (i128)x->smin + c, hi = (i128)x->smax + c; i128 mn = sext64(1ull << (w - 1), w), mx = mask64(w) >> 1;
        i128 d = sextW(b->c, w) - c;
        if (lo >= mn && hi <= mx && d >= mn && d <= mx) return mkBin(op, x, mkC((u128)d, w));
      }
      if (w <= 64 && isC(a) && b->op == ADD && isC(b->k[1])) {
        i128 c = sextW(b->k[1]->c, w); E x = b->k[0];
        i128 lo = (i128)x->smin + c, hi = (i128)x->smax + c; i128 mn = sext64(1ull << (w - 1), w), mx = mask64(w) >> 1;
        i128 d = sextW(a->c, w) - c;
        if (lo >= mn && hi <= mx && d >= mn && d <= mx) return mkBin(op, mkC((u128)d, w), x);
      }
      break;
    default: break;
  }
  // distribute over ITE with constant arms when the other side is constant
  if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkITE(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (isC(a) && b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkITE(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  return rawN(op, rw, 0, a, b);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (isC(a)) return mkC(a->c >> lo, w);
  switch (a->op) {
    case EXTRACT: return mkExtract(a->k[0], lo + a->aux, w);
    case CONCAT: {
      unsigned lw = a->k[1]->width;
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case ZEXT: {
      unsigned kw = a->k[0]->width;
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      if (lo >= kw) return mkC(0, w);
      return mkZExt(mkExtract(a->k[0], lo, kw - lo), w);
    }
    case SEXT: {
      unsigned kw = a->k[0]->width;
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      if (lo == 0) return mkSExt(a->k[0], w);
      break;
    }
    case AND: case OR: case XOR: if (isC(a->k[1]) || lo == 0) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); break;
    case ADD: case SUB: case MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case SHL: if (lo == 0 && isC(a->k[1]) && a->k[1]->c < w) return mkBin(SHL, mkExtract(a->k[0], 0, w), mkC(a->k[1]->c, w));
      if (isC(a->k[1]) && lo >= a->k[1]->c) return mkExtract(a->k[0], lo - (unsigned)a->k[1]->c, w);
      if (isC(a->k[1]) && lo + w <= a->k[1]->c) return mkC(0, w);
      break;
    case ITE: if (isC(a->k[1]) && isC(a->k[2])) return mkITE(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
    default: break;
  }
  if (a->width <= 64 && lo < 64 && (a->umax >> lo) == 0) return mkC(0, w);
  return rawN(EXTRACT, w, lo, a);
}
E mkZExt(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkC(a->c, w);
  if (a->op == ZEXT) return mkZExt(a->k[0], w);
  if (a->op == EXTRACT && a->aux == 0 && a->k[0]->width == w && w <= 64 && a->k[0]->umax <= mask64(a->width)) return a->k[0];
  if (a->op == EXTRACT && a->aux == 0 && a->k[0]->width > w && a->k[0]->width <= 64 && a->k[0]->umax <= mask64(a->width)) return mkExtract(a->k[0], 0, w);
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkITE(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return rawN(ZEXT, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkC((u128)sextW(a->c, a->width), w);
  if (a->width <= 64 && a->smin >= 0) return mkZExt(a, w);
  if (a->op == SEXT) return mkSExt(a->k[0], w);
  if (a->op == EXTRACT && a->aux == 0 && a->k[0]->width == w && w <= 64) {
    unsigned kw = a->width; int64_t mn = sext64(1ull << (kw - 1), kw), mx = mask64(kw) >> 1;
    if (a->k[0]->smin >= mn && a->k[0]->smax <= mx) return a->k[0];
  }
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkITE(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return rawN(SEXT, w, 0, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (isC(hi) && isC(lo)) return mkC((hi->c << lo->width) | lo->c, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->aux == (int)(lo->aux + lo->width)) return mkExtract(hi->k[0], lo->aux, w);
  if (lo->op == CONCAT && hi->op == EXTRACT && lo->k[0]->op == EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->aux == (int)(lo->k[0]->aux + lo->k[0]->width)) return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->width + lo->k[0]->width), lo->k[1]);
  if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (hi->op == ZEXT) return mkZExt(mkConcat(hi->k[0], lo), w);
  // low parts of an ITE of constants etc. are left alone
  return rawN(CONCAT, w, 0, hi, lo);
}

// ------------------------------------------------------------ floating point
static const int64_t P53 = 1ll << 53;
static bool fits53(E x, unsigned w) { int64_t lim = w == 64 ? P53 : (1ll << 24); return x->smin >= -lim && x->smax <= lim; }
E mkScaled(E x, int s, unsigned w) {
  assert(x->width == 64);
  if (isC(x)) { double d = std::ldexp((double)(int64_t)(uint64_t)x->c, -s); return w == 64 ? mkC(dBits(d), 64) : mkC(fBits((float)d), 32); }
  return rawN(SCALED, w, s, x);
}
// view as (x, s): value == x*2^-s ; nz set if the value may be -0 (then x==0 there)
struct Sc { E x = nullptr; int s = 0; E negzero = nullptr; };
static bool constScaled(double d, int64_t& x, int& s) {
  if (!std::isfinite(d)) return false;
  if (d == 0) { x = 0; s = 0; return true; }
  int e; double m = std::frexp(d, &e);           // d = m*2^e, 0.5<=|m|<1
  int64_t i = (int64_t)std::ldexp(m, 53); int sh = 53 - e;  // d = i*2^-sh
  while ((i & 1) == 0) { i >>= 1; sh--; }
  if (sh < 0) { if (sh < -52) return false; i128 v = (i128)i << (-sh); if (v > (i128)P53 || v < -(i128)P53) return false; i = (int64_t)v; sh = 0; }
  if (sh > 60) return false;
  x = i; s = sh; return true;
}
static bool asScaled(E a, Sc& r) {
  if (a->op == SCALED) { r.x = a->k[0]; r.s = a->aux; return true; }
  if (isC(a)) {
    double d = a->width == 64 ? asD((uint64_t)a->c) : (double)asF((uint32_t)a->c); int64_t x; int s;
    if (!constScaled(d, x, s)) return false;
    r.x = mkC((uint64_t)x, 64); r.s = s; if (d == 0 && std::signbit(d)) r.negzero = mkTrue();
    return true;
  }
  // ITE(c, -0.0, scaled)  as built by FNEG / FMUL
  if (a->op == ITE && isC(a->k[1], a->width == 64 ? (u128)0x8000000000000000ull : (u128)0x80000000u) && a->k[2]->op == SCALED) { r.x = a->k[2]->k[0]; r.s = a->k[2]->aux; r.negzero = a->k[0]; return true; }
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) {  // sign of a zero
    u128 nz = a->width == 64 ? (u128)0x8000000000000000ull : (u128)0x80000000u;
    if (isC(a->k[1], nz) && isC(a->k[2], 0)) { r.x = mkC(0, 64); r.s = 0; r.negzero = a->k[0]; return true; }
    if (isC(a->k[2], nz) && isC(a->k[1], 0)) { r.x = mkC(0, 64); r.s = 0; r.negzero = mkNot(a->k[0]); return true; }
  }
  return false;
}
static bool align(Sc& a, Sc& b, unsigned w) {
  int s = a.s > b.s ? a.s : b.s;
  for (Sc* p : {&a, &b}) {
    int d = s - p->s; if (!d) continue;
    if (d > 60) return false;
    i128 lo = (i128)p->x->smin << d, hi = (i128)p->x->smax << d;
    if (lo < -((i128)1 << 61) || hi > ((i128)1 << 61)) return false;
    p->x = mkBin(SHL, p->x, mkC(d, 64)); p->s = s;
  }
  return true;
}
static bool rangeOK(i128 lo, i128 hi, unsigned w) { i128 lim = w == 64 ? (i128)P53 : (i128)1 << 24; return lo >= -lim && hi <= lim; }
static E scaledITE(E c, E a, E b) {  // join two scaled values, or one and an exactly representable constant
  unsigned w = a->width; Sc x, y;
  if (!(a->op == SCALED || isC(a)) || !(b->op == SCALED || isC(b))) return nullptr;
  if (!asScaled(a, x) || !asScaled(b, y) || x.negzero || y.negzero || !align(x, y, w)) return nullptr;
  auto ok = [&](E e) { return rangeOK(e->smin, e->smax, w); };
  if (!ok(x.x) || !ok(y.x)) return nullptr;
  return mkScaled(mkITE(c, x.x, y.x), x.s, w);
}
// normal form for "infinite or scaled": ITE(p, +inf, scaled)
static bool infScaled(E a, E& p, E& v) {
  u128 inf = a->width == 64 ? (u128)0x7FF0000000000000ull : a->width == 32 ? (u128)0x7F800000u : (u128)0; if (!inf) return false;
  if (isC(a, inf)) { p = mkTrue(); v = nullptr; return true; }
  if (a->op == SCALED) { p = mkFalse(); v = a; return true; }
  if (a->op == ITE && isC(a->k[1], inf) && a->k[2]->op == SCALED) { p = a->k[0]; v = a->k[2]; return true; }
  Sc x; if (isC(a) && asScaled(a, x) && !x.negzero) { p = mkFalse(); v = a; return true; }
  return false;
}
static E infITE(E c, E a, E b) {
  E pa, va, pb, vb; if (!infScaled(a, pa, va) || !infScaled(b, pb, vb)) return nullptr;
  E v = va && vb ? scaledITE(c, va, vb) : va ? va : vb; if (!v || v->op != SCALED) return nullptr;
  E p = mkITE(c, pa, pb); if (isC(p, 0)) return v;
  return rawN(ITE, a->width, 0, p, mkC(a->width == 64 ? (u128)0x7FF0000000000000ull : (u128)0x7F800000u, a->width), v);
}
// normal form for "scaled, or -0 where p": ITE(p, -0, scaled)
static E nzITE(E c, E a, E b) {
  unsigned w = a->width; if (w != 64 && w != 32) return nullptr; const u128 nz = w == 64 ? (u128)0x8000000000000000ull : (u128)0x80000000u;
  auto split = [&](E e, E& p, E& v) {
    if (isC(e, nz)) { p = mkTrue(); v = nullptr; return true; }
    if (e->op == SCALED) { p = mkFalse(); v = e; return true; }
    if (e->op == ITE && isC(e->k[1], nz) && e->k[2]->op == SCALED) { p = e->k[0]; v = e->k[2]; return true; }
    Sc x; if (isC(e) && asScaled(e, x) && !x.negzero) { p = mkFalse(); v = e; return true; }
    Sc y; if (e->op == ITE && isC(e->k[1]) && isC(e->k[2])) { for (int i = 1; i < 3; i++) if (isC(e->k[i], nz) && asScaled(e->k[3 - i], y) && !y.negzero) { p = i == 1 ? e->k[0] : mkNot(e->k[0]); E z = mkC(0, w); v = e->k[3 - i]; if (v != z) return false; return true; } }
    return false;
  };
  if (!(a->op == ITE || b->op == ITE)) return nullptr;
  E pa, va, pb, vb; if (!split(a, pa, va) || !split(b, pb, vb) || (!va && !vb)) return nullptr;
  if (!va) va = mkC(0, w); if (!vb) vb = mkC(0, w);   // the integer is 0 wherever the value is -0
  E v = va == vb ? va : scaledITE(c, va, vb);
  if (!v || v->op != SCALED) return nullptr;
  E p = mkITE(c, pa, pb); if (isC(p, 0)) return v;
  return rawN(ITE, w, 0, p, mkC(nz, w), v);
}
static E withNegZero(E cond, E v, unsigned w) {
  if (isC(cond, 0)) return v;
  return mkITE(cond, mkC(w == 64 ? (u128)0x8000000000000000ull : (u128)0x80000000u, w), v);
}
static bool liftITE(E a, E b) {
  // lift an operation over an ITE that has a non-scaled constant arm (e.g. infinity)
  return a->op == ITE && !isC(a->k[0]) && (isC(a->k[1]) || isC(a->k[2]));
}
static E dropScale(E x, int& s) {  // reduce trailing powers of two if x is SHL by const
  return x;
}
E mkFBin(Op op, E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkC(fpBin(op, w, (uint64_t)a->c, (uint64_t)b->c), w);
  if ((op == FADD || op == FMUL) && isC(a)) std::swap(a, b);
  Sc x, y;
  if (op != FREM && asScaled(a, x) && asScaled(b, y)) {
    if (op == FADD || op == FSUB) {
      Sc p = x, q = y;
      // negative zero results: ADD: both -0 ; SUB: -0 - +0
      E nz = mkFalse();
      if (op == FADD) { if (x.negzero && y.negzero) nz = mkAndB(x.negzero, y.negzero); }
      else if (x.negzero) { E yposzero = mkAndB(mkEq(y.x, mkC(0, 64)), y.negzero ? mkNot(y.negzero) : mkTrue()); nz = mkAndB(x.negzero, yposzero); }
      if (align(p, q, w)) {
        i128 lo = op == FADD ? (i128)p.x->smin + q.x->smin : (i128)p.x->smin - q.x->smax;
        i128 hi = op == FADD ? (i128)p.x->smax + q.x->smax : (i128)p.x->smax - q.x->smin;
        if (rangeOK(lo, hi, w)) return withNegZero(nz, mkScaled(mkBin(op == FADD ? ADD : SUB, p.x, q.x), p.s, w), w);
      }
      if (isC(y.x, 0) && !y.negzero && !x.negzero) return a;
    } else if (op == FMUL) {
      i128 c[4] = {(i128)x.x->smin * y.x->smin, (i128)x.x->smin * y.x->smax, (i128)x.x->smax * y.x->smin, (i128)x.x->smax * y.x->smax};
      i128 lo = c[0], hi = c[0]; for (int i = 1; i < 4; i++) { if (c[i] < lo) lo = c[i]; if (c[i] > hi) hi = c[i]; }
      if (rangeOK(lo, hi, w) && x.s + y.s <= 60) {
        E z64 = mkC(0, 64);
        auto sg = [&](Sc& v) { E n = mkBin(SLT, v.x, z64); return v.negzero ? mkOrB(n, v.negzero) : n; };
        E nz = mkAndB(mkOrB(mkEq(x.x, z64), mkEq(y.x, z64)), mkBin(XOR, sg(x), sg(y)));
        return withNegZero(nz, mkScaled(mkBin(MUL, x.x, y.x), x.s + y.s, w), w);
      }
    } else if (op == FDIV && isC(y.x) && !y.negzero) {
      int64_t c = (int64_t)(uint64_t)y.x->c; bool neg = c < 0; uint64_t m = neg ? -(uint64_t)c : c;
      if (m && (m & (m - 1)) == 0 && !neg && !x.negzero) {
        int l = __builtin_ctzll(m); int s = x.s + l - y.s;
        if (s >= 0 && s <= 60) return mkScaled(x.x, s, w);
        if (s < 0 && -s < 53) { i128 lo = (i128)x.x->smin << -s, hi = (i128)x.x->smax << -s; if (rangeOK(lo, hi, w)) return mkScaled(mkBin(SHL, x.x, mkC(-s, 64)), 0, w); }
      }
    }
  }
  if (liftITE(a, b)) return mkITE(a->k[0], mkFBin(op, a->k[1], b), mkFBin(op, a->k[2], b));
  if (liftITE(b, a)) return mkITE(b->k[0], mkFBin(op, a, b->k[1]), mkFBin(op, a, b->k[2]));
  // scaled with infinities
  if (op == FADD || op == FSUB) {
    auto inf = [&](E e) { return isC(e) && std::isinf(w == 64 ? asD((uint64_t)e->c) : asF((uint32_t)e->c)); };
    if (a->op == SCALED && inf(b)) return op == FADD ? b : mkFNeg(b);
    if (b->op == SCALED && inf(a)) return a;
  }
  if (op == FMUL && isC(b) && (w == 64 ? asD((uint64_t)b->c) == 1.0 : asF((uint32_t)b->c) == 1.0f) && isFPOp(a->op)) return a;
  if (op == FDIV && isC(b) && (w == 64 ? asD((uint64_t)b->c) == 1.0 : asF((uint32_t)b->c) == 1.0f) && isFPOp(a->op)) return a;
  return rawN(op, w, 0, a, b);
}
E mkFCmp(Op op, E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) { const Expr* k[3] = {a, b, nullptr}; return mkC(evalOp(op, 1, 0, k, a->c, b->c, 0), 1); }
  Sc x, y;
  bool sa = asScaled(a, x), sb = asScaled(b, y);
  if (sa && sb) {
    if (align(x, y, w)) {
      if (op == FLT) return mkBin(SLT, x.x, y.x);
      if (op == FLE) return mkBin(SLE, x.x, y.x);
      return mkBin(EQ, x.x, y.x);
    }
  }
  auto cv = [&](E e) { return w == 64 ? asD((uint64_t)e->c) : (double)asF((uint32_t)e->c); };
  if (isC(a) && std::isnan(cv(a))) return mkFalse();
  if (isC(b) && std::isnan(cv(b))) return mkFalse();
  // scaled value against any non-scaled constant (inf, huge, tiny)
  if (sa && isC(b)) {
    double d = cv(b); double lo = std::ldexp((double)x.x->smin, -x.s), hi = std::ldexp((double)x.x->smax, -x.s);
    if (op == FEQ && (d < lo || d > hi)) return mkFalse();
    if (op == FLT) { if (hi < d) return mkTrue(); if (lo >= d) return mkFalse(); }
    if (op == FLE) { if (hi <= d) return mkTrue(); if (lo > d) return mkFalse(); }
    if (std::fabs(d) < 4e15 && x.s <= 60) {  // v*2^-s < d  <=> v < d*2^s ; exact when d*2^s computed exactly
      double t = std::ldexp(d, x.s);
      if (std::isfinite(t) && std::fabs(t) < 9e18 && std::ldexp(t, -x.s) == d) {
        double f = std::floor(t); int64_t fi = (int64_t)f; bool ex = f == t;
        if (op == FEQ) return ex ? mkBin(EQ, x.x, mkC((uint64_t)fi, 64)) : mkFalse();
        if (op == FLE || !ex) return mkBin(SLE, x.x, mkC((uint64_t)fi, 64));
        return mkBin(SLT, x.x, mkC((uint64_t)fi, 64));
      }
    }
  }
  if (sb && isC(a)) {
    double d = cv(a); double lo = std::ldexp((double)y.x->smin, -y.s), hi = std::ldexp((double)y.x->smax, -y.s);
    if (op == FEQ && (d < lo || d > hi)) return mkFalse();
    if (op == FLT) { if (d < lo) return mkTrue(); if (d >= hi) return mkFalse(); }
    if (op == FLE) { if (d <= lo) return mkTrue(); if (d > hi) return mkFalse(); }
    if (std::fabs(d) < 4e15 && y.s <= 60) {
      double t = std::ldexp(d, y.s);
      if (std::isfinite(t) && std::fabs(t) < 9e18 && std::ldexp(t, -y.s) == d) {
        double f = std::ceil(t); int64_t fi = (int64_t)f; bool ex = f == t;
        if (op == FEQ) return ex ? mkBin(EQ, y.x, mkC((uint64_t)fi, 64)) : mkFalse();
        if (op == FLE || !ex) return mkBin(SLE, mkC((uint64_t)fi, 64), y.x);
        return mkBin(SLT, mkC((uint64_t)fi, 64), y.x);
      }
    }
  }
  if (a == b) {
    if (op == FLT) return mkFalse();
    if (a->op == SCALED || a->op == FFROMS || a->op == FFROMU) return mkTrue();
    if (op == FLE) return mkFCmp(FEQ, a, a);
  }
  if (liftITE(a, b)) return mkITE(a->k[0], mkFCmp(op, a->k[1], b), mkFCmp(op, a->k[2], b));
  if (liftITE(b, a)) return mkITE(b->k[0], mkFCmp(op, a, b->k[1]), mkFCmp(op, a, b->k[2]));
  if (op == FEQ && a->id > b->id) std::swap(a, b);
  return rawN(op, 1, 0, a, b);
}
E mkFNeg(E a) {
  unsigned w = a->width;
  if (isC(a)) return mkC(a->c ^ ((u128)1 << (w - 1)), w);
  if (a->op == FNEG) return a->k[0];
  Sc x;
  if (asScaled(a, x)) {
    if (!x.negzero) return withNegZero(mkEq(x.x, mkC(0, 64)), mkScaled(mkBin(SUB, mkC(0, 64), x.x), x.s, w), w);
    E nz = mkAndB(mkEq(x.x, mkC(0, 64)), mkNot(x.negzero));
    return withNegZero(nz, mkScaled(mkBin(SUB, mkC(0, 64), x.x), x.s, w), w);
  }
  if (a->op == ITE) return mkITE(a->k[0], mkFNeg(a->k[1]), mkFNeg(a->k[2]));
  if (!isFPOp(a->op)) return mkBin(XOR, a, mkC((u128)1 << (w - 1), w));
  return rawN(FNEG, w, 0, a);
}
E mkFAbs(E a) {
  unsigned w = a->width;
  if (isC(a)) return mkC(a->c & maskW(w - 1), w);
  Sc x;
  if (asScaled(a, x)) {
    if (x.x->smin >= 0) return mkScaled(x.x, x.s, w);
    return mkScaled(mkITE(mkBin(SLT, x.x, mkC(0, 64)), mkBin(SUB, mkC(0, 64), x.x), x.x), x.s, w);
  }
  if (a->op == FABS) return a;
  if (a->op == FNEG) return mkFAbs(a->k[0]);
  if (a->op == ITE) return mkITE(a->k[0], mkFAbs(a->k[1]), mkFAbs(a->k[2]));
  if (!isFPOp(a->op)) return mkBin(AND, a, mkC(maskW(w - 1), w));
  return rawN(FABS, w, 0, a);
}
E mkFRnd(int mode, E a) {
  unsigned w = a->width;
  if (isC(a)) { const Expr* k[3] = {a, nullptr, nullptr}; return mkC(evalOp(FRND, w, mode, k, a->c, 0, 0), w); }
  Sc x;
  if (asScaled(a, x)) {
    if (x.s == 0) return a;
    E z = mkC(0, 64), s = mkC(x.s, 64), one = mkC(1, 64);
    E half = mkC((u128)1 << (x.s - 1), 64), full1 = mkC(((u128)1 << x.s) - 1, 64);
    E neg = mkBin(SLT, x.x, z); E r = nullptr;
    E ax = mkITE(neg, mkBin(SUB, z, x.x), x.x);
    if (mode == R_FLOOR) r = mkBin(ASHR, x.x, s);
    else if (mode == R_CEIL) r = mkBin(ASHR, mkBin(ADD, x.x, full1), s);
    else if (mode == R_TRUNC || mode == R_ROUND) { E m = mkBin(LSHR, mode == R_ROUND ? mkBin(ADD, ax, half) : ax, s); r = mkITE(neg, mkBin(SUB, z, m), m); }
    if (r) {
      // result zero keeps the sign of the operand
      E nz = mkAndB(mkEq(r, z), x.negzero ? mkOrB(neg, x.negzero) : neg);
      return withNegZero(nz, mkScaled(r, 0, w), w);
    }
  }
  if (a->op == ITE) return mkITE(a->k[0], mkFRnd(mode, a->k[1]), mkFRnd(mode, a->k[2]));
  if (a->op == FRND || a->op == FFROMS || a->op == FFROMU) return a;
  return rawN(FRND, w, mode, a);
}
E mkFSqrt(E a) {
  if (isC(a)) { const Expr* k[3] = {a, nullptr, nullptr}; return mkC(evalOp(FSQRT, a->width, 0, k, a->c, 0, 0), a->width); }
  return rawN(FSQRT, a->width, 0, a);
}
E mkSIToFP(E a, unsigned w) {
  if (isC(a)) { const Expr* k[3] = {a, nullptr, nullptr}; return mkC(evalOp(FFROMS, w, 0, k, a->c, 0, 0), w); }
  if (a->width <= 64) { E x = mkSExt(a, 64); if (fits53(x, w)) return mkScaled(x, 0, w); }
  if (a->width == 1) return mkITE(a, mkSIToFP(mkC(1, 1), w), mkSIToFP(mkC(0, 1), w));
  return rawN(FFROMS, w, 0, a);
}
E mkUIToFP(E a, unsigned w) {
  if (isC(a)) { const Expr* k[3] = {a, nullptr, nullptr}; return mkC(evalOp(FFROMU, w, 0, k, a->c, 0, 0), w); }
  if (a->width <= 64 && a->umax <= (uint64_t)P53) { E x = mkZExt(a, 64); if (fits53(x, w)) return mkScaled(x, 0, w); }
  return rawN(FFROMU, w, 0, a);
}
static E scaledToInt(const Sc& x) {
  if (x.s == 0) return x.x;
  E z = mkC(0, 64); E neg = mkBin(SLT, x.x, z); E ax = mkITE(neg, mkBin(SUB, z, x.x), x.x); E m = mkBin(LSHR, ax, mkC(x.s, 64));
  return mkITE(neg, mkBin(SUB, z, m), m);
}
E mkFPToSI(E a, unsigned w) {
  if (isC(a)) { const Expr* k[3] = {a, nullptr, nullptr}; return mkC(evalOp(FTOS, w, 0, k, a->c, 0, 0), w); }
  Sc x;
  if (asScaled(a, x)) {
    E i = scaledToInt(x);
    unsigned cw = w <= 32 ? 32 : 64;
    if (cw == 64 || (i->smin >= INT32_MIN && i->smax <= INT32_MAX)) return mkExtract(i, 0, w);
    E inr = mkAndB(mkBin(SLE, mkC((uint64_t)(int64_t)INT32_MIN, 64), i), mkBin(SLE, i, mkC((uint64_t)INT32_MAX, 64)));
    return mkITE(inr, mkExtract(i, 0, w), mkExtract(mkC(0x80000000u, 32), 0, w));
  }
  if (a->op == ITE) return mkITE(a->k[0], mkFPToSI(a->k[1], w), mkFPToSI(a->k[2], w));
  return rawN(FTOS, w, 0, a);
}
E mkFPToUI(E a, unsigned w) {
  if (isC(a)) { const Expr* k[3] = {a, nullptr, nullptr}; return mkC(evalOp(FTOU, w, 0, k, a->c, 0, 0), w); }
  Sc x;
  if (asScaled(a, x)) return mkExtract(scaledToInt(x), 0, w);
  if (a->op == ITE) return mkITE(a->k[0], mkFPToUI(a->k[1], w), mkFPToUI(a->k[2], w));
  return rawN(FTOU, w, 0, a);
}
E mkFCvt(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) { const Expr* k[3] = {a, nullptr, nullptr}; return mkC(evalOp(FCVT, w, 0, k, a->c, 0, 0), w); }
  if (a->op == SCALED && (w == 64 || fits53(a->k[0], 32))) return mkScaled(a->k[0], a->aux, w);
  if (a->op == FCVT && w == a->k[0]->width && w < a->width) return a->k[0];
  return rawN(FCVT, w, 0, a);
}
