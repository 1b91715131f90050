// Hash-consed expression DAG with three sorts: Bool (w==1), BV (w>1), Int (w==0).
//
// Two wrapper kinds let machine values live in linear integer arithmetic while that is exact:
//   IB(x,w)    the w-bit integer congruent to the Int x, where -2^(w-1) <= x <= 2^w-1 is known
//   DY(x,s,w)  the IEEE binary32/64 number x * 2^-s, where |x| < 2^24 (2^53) is known, so that it
//              is exactly representable (sign of zero is not tracked)
// Every operation checks from the statically propagated bounds that its result is still
// representable without wrap-around / rounding; if not it leaves the domain (BV / FP theory) or
// raises Unsupported. No operation ever rounds or wraps silently.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <cmath>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

enum Kind : u8 {
  K_BVCONST, K_BVVAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE, K_IB, K_DY,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FNEG, K_FABS, K_FPEXT, K_FPTRUNC, K_SITOFP, K_UITOFP,
  K_FPTOSI, K_FPTOUI, K_FRND, K_FMIN, K_FMAX, K_FSQRT,
  // Bool
  K_BCONST, K_BVAR, K_BNOT, K_BAND, K_BOR, K_BXOR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_FOEQ, K_FOLT, K_FOLE, K_FUNO, K_ILE, K_IEQ,
  // Int
  K_IVAR, K_ILIN, K_IITE, K_IDIV, K_IMUL
};

struct Expr;
typedef const Expr *E;
typedef std::vector<std::pair<E, i128>> Lin;
struct Expr {
  Kind k; uint16_t w = 0; u32 id = 0; u32 hash = 0;
  E a = nullptr, b = nullptr, c = nullptr;
  u64 lo = 0, hi = 0;       // constants, var ids, extract low bit, fp widths, divisors
  int sh = 0;               // DY shift
  i128 imin = 0, imax = 0;  // Int sort bounds
  u64 umin = 0, umax = 0;   // BV bounds (w<=64)
  Lin lin; i128 lc = 0;
  const std::vector<u32> *vars = nullptr;
  mutable u64 stamp = 0; mutable u128 val = 0;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

struct Pool {
  struct H { size_t operator()(E e) const { return e->hash; } };
  struct Q { bool operator()(E x, E y) const {
    return x->k == y->k && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->lo == y->lo && x->hi == y->hi && x->sh == y->sh && x->lc == y->lc && x->lin == y->lin
      // fresh variables with distinct ids differ in lo
      ; } };
  std::unordered_set<E, H, Q> tab;
  std::vector<E> all;
  std::map<std::vector<u32>, const std::vector<u32> *> varsets;
  std::vector<u32> emptyv;
  const std::vector<u32> *internVars(std::vector<u32> &&v) {
    if (v.empty()) return &emptyv;
    auto it = varsets.find(v); if (it != varsets.end()) return it->second;
    auto *p = new std::vector<u32>(v); varsets.emplace(std::move(v), p); return p;
  }
  const std::vector<u32> *uni(const std::vector<u32> *x, const std::vector<u32> *y) {
    if (x == y || y->empty()) return x; if (x->empty()) return y;
    std::vector<u32> r; r.reserve(x->size() + y->size());
    std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
    if (r.size() == x->size()) return x; if (r.size() == y->size()) return y;
    return internVars(std::move(r));
  }
  E intern(Expr &t) {
    u64 h = t.k * 0x9E3779B97F4A7C15ull + t.w;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix((u64)t.a); mix((u64)t.b); mix((u64)t.c); mix(t.lo); mix(t.hi); mix(t.sh); mix((u64)t.lc);
    for (auto &p : t.lin) { mix((u64)p.first); mix((u64)p.second); }
    t.hash = (u32)(h ^ (h >> 32));
    auto it = tab.find(&t); if (it != tab.end()) return *it;
    const std::vector<u32> *v = &emptyv;
    if (t.k == K_BVVAR || t.k == K_BVAR || t.k == K_IVAR) v = internVars({(u32)t.hi});
    if (t.a) v = uni(v, t.a->vars); if (t.b) v = uni(v, t.b->vars); if (t.c) v = uni(v, t.c->vars);
    for (auto &p : t.lin) v = uni(v, p.first->vars);
    t.vars = v;
    Expr *e = new Expr(std::move(t)); e->id = all.size(); all.push_back(e); tab.insert(e); return e;
  }
};
extern Pool P;

// ---- construction ----
static inline bool isC(E e) { return e->k == K_BVCONST || e->k == K_BCONST; }
static inline u128 cval(E e) { return ((u128)e->hi << 64) | e->lo; }
static inline E bvc(u128 v, unsigned w) {
  Expr t; v &= maskw(w);
  if (w == 1) { t.k = K_BCONST; } else t.k = K_BVCONST;
  t.w = w; t.lo = (u64)v; t.hi = (u64)(v >> 64);
  if (w <= 64) t.umin = t.umax = (u64)v;
  return P.intern(t);
}
static inline E bconst(bool b) { return bvc(b, 1); }
static inline E mk0(Kind k, unsigned w, E a, E b = nullptr, E c = nullptr, u64 lo = 0, u64 hi = 0) {
  Expr t; t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.lo = lo; t.hi = hi;
  if (w && w <= 64) { t.umin = 0; t.umax = (u64)maskw(w); }
  return P.intern(t);
}
static inline E mkBoundBV(Kind k, unsigned w, E a, E b, E c, u64 lo, u64 hi, u64 umin, u64 umax) {
  Expr t; t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.lo = lo; t.hi = hi; t.umin = umin; t.umax = umax;
  return P.intern(t);
}

E bnot(E a); E band(E a, E b); E bor(E a, E b); E bxor(E a, E b);
E mkITE(E c, E a, E b);
E mkBin(Kind k, E a, E b);
E mkEQ(E a, E b);
E mkCmp(Kind k, E a, E b); // ULT ULE SLT SLE
E mkExtract(E a, unsigned hi, unsigned lo);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w); E mkSext(E a, unsigned w);
// ints
E iconst(i128 v); E ilin(Lin &&l, i128 c); E iadd(E a, E b); E imulc(E a, i128 k); E isub(E a, E b);
E iite(E c, E a, E b); E idivc(E a, i128 d); E imodc(E a, i128 d); E imul(E a, E b);
E ile0(E x); E ieq0(E x);
E ibwrap(E x, unsigned w); // requires bounds
bool ibFits(E x, unsigned w);
bool toInt(E e, E &out); // exact unsigned-or-signed representative as Int if available (IB, const, ITE of consts)
E dywrap(E x, int sh, unsigned fw);
std::string show(E e, int depth = 6);
E asUns(E x, unsigned w); E asSig(E x, unsigned w);
E mkF2(Kind k, E a, E b); E mkF1(Kind k, E a, unsigned outw, int extra = 0);
double bitsToD(u128 v, unsigned w); u128 dToBits(double d, unsigned w);
E mkFCmp(Kind k, E a, E b);
E freshBV(unsigned w, u32 varid, u64 umin, u64 umax);
E freshBool(u32 varid);
E freshInt(u32 varid, i128 lo, i128 hi);
u128 evalE(E e, const std::vector<u128> &model);
extern u64 evalStamp;
E fToInt(E a, unsigned outw, bool sgn, bool sat);
E intToF(E a, unsigned fw, bool sgn);
bool constDyadic(E c, E &n, int &sh);
E iabs(E x);
E imin2(E a, E b); E imax2(E a, E b);
E dyRound(E d, int mode); // 0 floor 1 ceil 2 trunc 3 round(half away) 4 rint(half even)
