#include "expr.h"
#include <cfenv>
Pool P;
u64 evalStamp = 0;

double bitsToD(u128 v, unsigned w) { if (w == 32) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; } u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
u128 dToBits(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }

// ---------- Bool ----------
E bnot(E a) {
  if (a->k == K_BCONST) return bconst(!a->lo);
  if (a->k == K_BNOT) return a->a;
  if (a->k == K_ILE) { return ile0(iadd(imulc(a->a, -1), iconst(1))); }
  if (a->k == K_ULT) return mkCmp(K_ULE, a->b, a->a);
  if (a->k == K_ULE) return mkCmp(K_ULT, a->b, a->a);
  if (a->k == K_SLT) return mkCmp(K_SLE, a->b, a->a);
  if (a->k == K_SLE) return mkCmp(K_SLT, a->b, a->a);
  if (a->k == K_BAND) return bor(bnot(a->a), bnot(a->b));
  if (a->k == K_BOR) return band(bnot(a->a), bnot(a->b));
  return mk0(K_BNOT, 1, a);
}
static bool isNeg(E a, E b) { return (a->k == K_BNOT && a->a == b) || (b->k == K_BNOT && b->a == a); }
E band(E a, E b) {
  if (isC(a)) return a->lo ? b : a; if (isC(b)) return b->lo ? a : b;
  if (a == b) return a; if (isNeg(a, b)) return bconst(false);
  if (a->k == K_ILE || a->k == K_ULT || a->k == K_ULE || a->k == K_SLT || a->k == K_SLE) if (bnot(a) == b) return bconst(false);
  if (a->id > b->id) std::swap(a, b);
  return mk0(K_BAND, 1, a, b);
}
E bor(E a, E b) {
  if (isC(a)) return a->lo ? a : b; if (isC(b)) return b->lo ? b : a;
  if (a == b) return a; if (isNeg(a, b)) return bconst(true);
  if (a->k == K_ILE || a->k == K_ULT || a->k == K_ULE || a->k == K_SLT || a->k == K_SLE) if (bnot(a) == b) return bconst(true);
  if (a->id > b->id) std::swap(a, b);
  return mk0(K_BOR, 1, a, b);
}
E bxor(E a, E b) {
  if (isC(a)) return a->lo ? bnot(b) : b; if (isC(b)) return b->lo ? bnot(a) : a;
  if (a == b) return bconst(false); if (isNeg(a, b)) return bconst(true);
  if (a->id > b->id) std::swap(a, b);
  return mk0(K_BXOR, 1, a, b);
}

// ---------- Int ----------
E iconst(i128 v) { Lin l; return ilin(std::move(l), v); }
static bool isIC(E e) { return e->k == K_ILIN && e->lin.empty(); }
static const i128 BIG = (i128)1 << 100;
static i128 chk(i128 v) { if (v > BIG || v < -BIG) throw Unsupported("integer bounds overflow"); return v; }
E ilin(Lin &&l, i128 c) {
  if (l.size() == 1 && c == 0 && l[0].second == 1) return l[0].first;
  Expr t; t.k = K_ILIN; t.w = 0; t.lc = c; i128 lo = c, hi = c;
  for (auto &p : l) { i128 k = p.second; i128 x = chk(k) * 1, a = p.first->imin, b = p.first->imax; (void)x;
    if ((k > ((i128)1 << 62) || k < -((i128)1 << 62)) && (a > (1 << 30) || b > (1 << 30) || a < -(1 << 30))) throw Unsupported("int bounds");
    if (k > 0) { lo += k * a; hi += k * b; } else { lo += k * b; hi += k * a; } }
  t.imin = chk(lo); t.imax = chk(hi); t.lin = std::move(l);
  return P.intern(t);
}
static void addTerm(Lin &l, i128 &c, E e, i128 k) {
  if (e->k == K_ILIN) { for (auto &p : e->lin) l.push_back({p.first, p.second * k}); c += e->lc * k; }
  else l.push_back({e, k});
}
static E normLin(Lin &l, i128 c) {
  std::sort(l.begin(), l.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
  Lin r; for (auto &p : l) { if (!r.empty() && r.back().first == p.first) r.back().second += p.second; else r.push_back(p); }
  r.erase(std::remove_if(r.begin(), r.end(), [](auto &p) { return p.second == 0; }), r.end());
  if (r.empty()) { Expr t; t.k = K_ILIN; t.w = 0; t.lc = c; t.imin = t.imax = c; return P.intern(t); }
  return ilin(std::move(r), c);
}
E iadd(E a, E b) { Lin l; i128 c = 0; addTerm(l, c, a, 1); addTerm(l, c, b, 1); return normLin(l, c); }
E isub(E a, E b) { Lin l; i128 c = 0; addTerm(l, c, a, 1); addTerm(l, c, b, -1); return normLin(l, c); }
E imulc(E a, i128 k) { Lin l; i128 c = 0; addTerm(l, c, a, k); return normLin(l, c); }
E imul(E a, E b) {
  if (isIC(a)) return imulc(b, a->lc); if (isIC(b)) return imulc(a, b->lc);
  if (a->id > b->id) std::swap(a, b);
  Expr t; t.k = K_IMUL; t.w = 0; t.a = a; t.b = b;
  i128 v[4] = {a->imin * b->imin, a->imin * b->imax, a->imax * b->imin, a->imax * b->imax};
  t.imin = chk(*std::min_element(v, v + 4)); t.imax = chk(*std::max_element(v, v + 4));
  return P.intern(t);
}
E iite(E c, E a, E b) {
  if (isC(c)) return c->lo ? a : b; if (a == b) return a;
  if (c->k == K_BNOT) return iite(c->a, b, a);
  Expr t; t.k = K_IITE; t.w = 0; t.a = c; t.b = a; t.c = b; t.imin = std::min(a->imin, b->imin); t.imax = std::max(a->imax, b->imax);
  return P.intern(t);
}
static i128 fdiv(i128 a, i128 d) { i128 q = a / d; if (a % d != 0 && a < 0) q--; return q; }
E idivc(E a, i128 d) {
  if (d == 1) return a; if (isIC(a)) return iconst(fdiv(a->lc, d));
  if (a->k == K_ILIN) { bool all = true; for (auto &p : a->lin) if (p.second % d) all = false;
    if (all) { Lin l; for (auto &p : a->lin) l.push_back({p.first, p.second / d}); return normLin(l, fdiv(a->lc, d)); }
    // floor((d*q + r) / d) = q + floor(r / d), kept when the second part is constant
    Lin q, r; i128 cq = fdiv(a->lc, d), cr = a->lc - cq * d, rlo = cr, rhi = cr;
    for (auto &p : a->lin) { i128 k = fdiv(p.second, d), m = p.second - k * d; if (k) q.push_back({p.first, k}); if (m) { r.push_back({p.first, m}); rlo += m * p.first->imin; rhi += m * p.first->imax; } }
    if (!q.empty() && fdiv(rlo, d) == fdiv(rhi, d)) return normLin(q, cq + fdiv(rlo, d)); }
  i128 lo = fdiv(a->imin, d), hi = fdiv(a->imax, d); if (lo == hi) return iconst(lo);
  Expr t; t.k = K_IDIV; t.w = 0; t.a = a; t.lo = (u64)d; t.hi = (u64)((u128)d >> 64); t.imin = lo; t.imax = hi;
  return P.intern(t);
}
E imodc(E a, i128 d) {
  if (a->imin >= 0 && a->imax < d) return a;
  E r = isub(a, imulc(idivc(a, d), d));
  if (r->k == K_ILIN && !r->lin.empty()) { const_cast<Expr *>(r)->imin = std::max(r->imin, (i128)0); const_cast<Expr *>(r)->imax = std::min(r->imax, d - 1); }
  return r;
}
static i128 igcd(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
E ile0(E x) {
  if (x->imax <= 0) return bconst(true); if (x->imin > 0) return bconst(false);
  if (x->k == K_IITE) { // push constants
    if (isIC(x->b) && isIC(x->c)) { bool p = x->b->lc <= 0, q = x->c->lc <= 0; if (p && !q) return x->a; if (!p && q) return bnot(x->a); }
  }
  if (x->k == K_ILIN) { i128 g = 0; for (auto &p : x->lin) g = igcd(g, p.second);
    if (g > 1) { Lin l; for (auto &p : x->lin) l.push_back({p.first, p.second / g}); i128 c = -fdiv(-x->lc, g); return ile0(normLin(l, c)); }
    if (x->lin.size() == 1 && x->lin[0].first->k == K_IITE && isIC(x->lin[0].first->b) && isIC(x->lin[0].first->c)) {
      E i = x->lin[0].first; bool p = i->b->lc * x->lin[0].second + x->lc <= 0, q = i->c->lc * x->lin[0].second + x->lc <= 0;
      if (p == q) return bconst(p); return p ? i->a : bnot(i->a); } }
  return mk0(K_ILE, 1, x);
}
E ieq0(E x) {
  if (x->imax < 0 || x->imin > 0) return bconst(false); if (x->imin == 0 && x->imax == 0) return bconst(true);
  if (x->k == K_ILIN) { i128 g = 0; for (auto &p : x->lin) g = igcd(g, p.second);
    if (x->lc % g) return bconst(false);
    bool neg = x->lin[0].second < 0; if (g > 1 || neg) { i128 d = neg ? -g : g; Lin l; for (auto &p : x->lin) l.push_back({p.first, p.second / d}); return ieq0(normLin(l, x->lc / d)); }
    if (x->lin.size() == 1 && x->lin[0].first->k == K_IITE) { E i = x->lin[0].first; if (isIC(i->b) && isIC(i->c)) {
      bool p = i->b->lc * x->lin[0].second + x->lc == 0, q = i->c->lc * x->lin[0].second + x->lc == 0;
      if (p == q) return bconst(p); return p ? i->a : bnot(i->a); } } }
  if (x->k == K_IITE && isIC(x->b) && isIC(x->c)) { bool p = x->b->lc == 0, q = x->c->lc == 0; if (p && !q) return x->a; if (!p && q) return bnot(x->a); if (p && q) return bconst(true); return bconst(false); }
  return mk0(K_IEQ, 1, x);
}
E iabs(E x) { if (x->imin >= 0) return x; if (x->imax <= 0) return imulc(x, -1); return iite(ile0(x), imulc(x, -1), x); }
E imin2(E a, E b) { if (a->imax <= b->imin) return a; if (b->imax <= a->imin) return b; return iite(ile0(isub(a, b)), a, b); }
E imax2(E a, E b) { if (a->imin >= b->imax) return a; if (b->imin >= a->imax) return b; return iite(ile0(isub(b, a)), a, b); }
bool ibFits(E x, unsigned w) { return w <= 64 && x->imin >= -((i128)1 << (w - 1)) && x->imax <= (i128)maskw(w); }
E ibwrap(E x, unsigned w) {
  if (isIC(x)) return bvc((u128)x->lc, w);
  Expr t; t.k = K_IB; t.w = w; t.a = x; if (x->imin >= 0) { t.umin = (u64)x->imin; t.umax = (u64)x->imax; } else { t.umin = 0; t.umax = (u64)maskw(w); }
  return P.intern(t);
}
E asUns(E x, unsigned w) { i128 m = (i128)1 << w; if (x->imin >= 0) return x; if (x->imax < 0) return iadd(x, iconst(m)); return iite(ile0(iadd(x, iconst(1))), iadd(x, iconst(m)), x); }
E asSig(E x, unsigned w) { i128 m = (i128)1 << w, h = (i128)1 << (w - 1); if (x->imax < h) return x; if (x->imin >= h) return isub(x, iconst(m)); return iite(ile0(isub(iconst(h), x)), isub(x, iconst(m)), x); }
bool toInt(E e, E &out) {
  if (e->w > 64) return false;
  if (e->k == K_IB) { out = e->a; return true; }
  if (e->k == K_BVCONST) { out = iconst((i128)sextw(cval(e), e->w)); return true; }
  if (e->k == K_ITE) { E a, b; if (toInt(e->b, a) && toInt(e->c, b)) { // make representatives consistent
      a = asUns(a, e->w); b = asUns(b, e->w); out = iite(e->a, a, b); return true; } }
  if (e->k == K_ZEXT) { E a; if (toInt(e->a, a)) { out = asUns(a, e->a->w); return true; } }
  return false;
}
static bool anyIB(E a, E b) { return a->k == K_IB || b->k == K_IB || (a->k == K_ZEXT && a->a->k == K_IB) || (b->k == K_ZEXT && b->a->k == K_IB); }

// ---------- BV ----------
E freshBV(unsigned w, u32 varid, u64 umin, u64 umax) { return mkBoundBV(K_BVVAR, w, nullptr, nullptr, nullptr, w, varid, umin, umax); }
E freshBool(u32 varid) { return mk0(K_BVAR, 1, nullptr, nullptr, nullptr, 1, varid); }
E freshInt(u32 varid, i128 lo, i128 hi) { Expr t; t.k = K_IVAR; t.w = 0; t.hi = varid; t.imin = lo; t.imax = hi; return P.intern(t); }

static bool constITE(E e) { return e->k == K_ITE && isC(e->b) && isC(e->c); }
static u128 foldBin(Kind k, u128 x, u128 y, unsigned w) {
  u128 m = maskw(w); i128 sx = sextw(x, w), sy = sextw(y, w);
  switch (k) {
    case K_ADD: return (x + y) & m; case K_SUB: return (x - y) & m; case K_MUL: return (x * y) & m;
    case K_UDIV: return y ? x / y : m; case K_UREM: return y ? x % y : x;
    case K_SDIV: return y ? (u128)((sy == -1) ? -sx : sx / sy) & m : (sx < 0 ? 1 : m); case K_SREM: return y ? (u128)((sy == -1) ? 0 : sx % sy) & m : x;
    case K_AND: return x & y; case K_OR: return x | y; case K_XOR: return x ^ y;
    case K_SHL: return y >= w ? 0 : (x << (unsigned)y) & m; case K_LSHR: return y >= w ? 0 : x >> (unsigned)y;
    case K_ASHR: return (u128)(y >= w ? (sx < 0 ? -1 : 0) : (sx >> (unsigned)y)) & m;
    default: throw Unsupported("foldBin");
  }
}
E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  if (a->k == K_DY || b->k == K_DY) {
    E d = a->k == K_DY ? a : b, c = a->k == K_DY ? b : a;
    if (isC(c)) { if (k == K_AND && cval(c) == maskw(w - 1)) return mkF1(K_FABS, d, w); if (k == K_XOR && cval(c) == (u128)1 << (w - 1)) return mkF1(K_FNEG, d, w); }
    throw Unsupported("bit-level use of a dyadic float: " + std::to_string(k) + " " + show(a, 4) + " / " + show(b, 4));
  }
  if (w == 1) { switch (k) { case K_AND: return band(a, b); case K_OR: return bor(a, b); case K_XOR: case K_ADD: case K_SUB: return bxor(a, b); case K_MUL: return band(a, b); default: throw Unsupported("i1 arith"); } }
  if (isC(a) && isC(b)) return bvc(foldBin(k, cval(a), cval(b), w), w);
  if (isC(a) && (k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR)) std::swap(a, b);
  if (isC(b)) {
    u128 c = cval(b);
    if (c == 0) { if (k == K_ADD || k == K_SUB || k == K_OR || k == K_XOR || k == K_SHL || k == K_LSHR || k == K_ASHR) return a; if (k == K_AND || k == K_MUL) return b; }
    if (c == 1 && (k == K_MUL || k == K_UDIV || k == K_SDIV)) return a;
    if (k == K_AND && c == maskw(w)) return a; if (k == K_OR && c == maskw(w)) return b;
    if (constITE(a) && !((k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) && c == 0)) return mkITE(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if ((k == K_SHL || k == K_LSHR || k == K_ASHR) && c >= w) { if (k != K_ASHR) return bvc(0, w); }
  }
  if (isC(a) && constITE(b) && (k == K_SUB || k == K_SHL || k == K_LSHR)) return mkITE(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
  if (a == b) { if (k == K_SUB || k == K_XOR) return bvc(0, w); if (k == K_AND || k == K_OR) return a; }
  // integer domain
  E x, y;
  if (w <= 64 && anyIB(a, b) && toInt(a, x) && toInt(b, y)) {
    E r = nullptr;
    switch (k) {
      case K_ADD: r = iadd(x, y); break;
      case K_SUB: r = isub(x, y); break;
      case K_MUL: if (isIC(x) || isIC(y)) { r = imul(x, y); } break;
      case K_UDIV: if (isIC(y)) { i128 d = asUns(y, w)->lc; if (d > 0) r = idivc(asUns(x, w), d); } break;
      case K_UREM: if (isIC(y)) { i128 d = asUns(y, w)->lc; if (d > 0) r = imodc(asUns(x, w), d); } break;
      case K_LSHR: if (isIC(y) && y->lc < w) r = idivc(asUns(x, w), (i128)1 << (int)y->lc); break;
      case K_ASHR: if (isIC(y) && y->lc < w) r = idivc(asSig(x, w), (i128)1 << (int)y->lc); break;
      case K_SHL: if (isIC(y) && y->lc < w) { r = imulc(x, (i128)1 << (int)y->lc); } break;
      case K_AND: if (isIC(y)) { u128 c = cval(b); if (isC(b) && (c & (c + 1)) == 0) r = imodc(asUns(x, w), (i128)c + 1); } break;
      case K_OR: if (isC(b)) { /* disjoint low bits unknown */ } break;
      default: break;
    }
    if (r) {
      if (ibFits(r, w)) return ibwrap(r, w);
      if (k == K_ADD || k == K_SUB || k == K_MUL || k == K_SHL) {
        // try shifting the representative by one modulus
        i128 m = (i128)1 << w; E r2 = isub(r, iconst(m)), r3 = iadd(r, iconst(m));
        if (ibFits(r2, w)) return ibwrap(r2, w); if (ibFits(r3, w)) return ibwrap(r3, w);
        return ibwrap(imodc(r, m), w);
      }
    }
  }
  if (isC(b)) {
    u128 c = cval(b);
    if (k == K_SUB) return mkBin(K_ADD, a, bvc(-c, w));
    if (k == K_ADD && a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, bvc(cval(a->b) + c, w));
    if (k == K_LSHR) return mkZext(mkExtract(a, w - 1, (unsigned)c), w);
    if (k == K_SHL) return mkConcat(mkExtract(a, w - 1 - (unsigned)c, 0), bvc(0, (unsigned)c));
    if (k == K_AND) { // contiguous masks
      if ((c & (c + 1)) == 0) { unsigned n = 0; while (c >> n) n++; return mkZext(mkExtract(a, n - 1, 0), w); }
      u128 inv = (~c) & maskw(w); if ((inv & (inv + 1)) == 0) { unsigned n = 0; while (inv >> n) n++; return mkConcat(mkExtract(a, w - 1, n), bvc(0, n)); }
    }
    if (k == K_UDIV && (c & (c - 1)) == 0) { unsigned n = 0; while ((c >> n) != 1) n++; return mkBin(K_LSHR, a, bvc(n, w)); }
    if (k == K_UREM && (c & (c - 1)) == 0) return mkBin(K_AND, a, bvc(c - 1, w));
  }
  if (k == K_OR || k == K_ADD || k == K_XOR) { // disjoint concat merge: concat(x,0) | zext(y)
    for (int sw = 0; sw < 2; sw++) {
      E p = sw ? b : a, q = sw ? a : b;
      if (p->k == K_CONCAT && isC(p->b) && cval(p->b) == 0) {
        unsigned n = p->b->w;
        if (q->k == K_ZEXT && q->a->w <= n) return mkConcat(p->a, mkZext(q->a, n));
        if (q->k == K_CONCAT && n < w && !(isC(q->b) && cval(q->b) == 0)) { E top = q->b->w <= n ? mkExtract(q->a, q->a->w - 1, n - q->b->w) : nullptr; if (top && isC(top) && cval(top) == 0) return mkConcat(p->a, mkExtract(q, n - 1, 0)); }
        if (isC(q) && cval(q) <= maskw(n)) return mkConcat(p->a, mkExtract(q, n - 1, 0));
        if (q->k == K_IB && q->a->imin >= 0 && q->a->imax <= (i128)maskw(n)) return mkConcat(p->a, mkExtract(q, n - 1, 0));
        if (q->k == K_ITE && q->w <= 64 && q->umax <= (u64)maskw(n)) return mkConcat(p->a, mkExtract(q, n - 1, 0));
      }
    }
  }
  u64 lo = 0, hi = (w <= 64) ? (u64)maskw(w) : 0;
  if (w <= 64) {
    u128 M = maskw(w);
    switch (k) {
      case K_ADD: if ((u128)a->umax + b->umax <= M) { lo = a->umin + b->umin; hi = a->umax + b->umax; } break;
      case K_MUL: if ((u128)a->umax * b->umax <= M) { lo = a->umin * b->umin; hi = a->umax * b->umax; } break;
      case K_AND: hi = std::min(a->umax, b->umax); break;
      case K_UREM: if (isC(b)) hi = std::min(hi, b->lo - 1); hi = std::min(hi, a->umax); break;
      case K_UDIV: if (isC(b)) { lo = a->umin / b->lo; hi = a->umax / b->lo; } else if (b->umin > 0) hi = a->umax; break;
      case K_SUB: if (a->umin >= b->umax) { lo = a->umin - b->umax; hi = a->umax - b->umin; } break;
      default: break;
    }
  }
  return mkBoundBV(k, w, a, b, nullptr, 0, 0, lo, hi);
}
E mkExtract(E a, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1; if (w == a->w) return a;
  if (isC(a)) return bvc(cval(a) >> lo, w);
  if (a->w == 1) throw Unsupported("extract of bool");
  if (a->k == K_DY) { // an opaque fragment: it can be copied and put together again, nothing else (the solver refuses it)
    if (w % 8 || lo % 8) throw Unsupported("bit-level use of a dyadic float: extract " + std::to_string(lo) + "+" + std::to_string(w) + " " + show(a, 4));
    return mkBoundBV(K_EXTRACT, w, a, nullptr, nullptr, lo, 0, 0, w <= 64 ? (u64)maskw(w) : 0); }
  if (a->k == K_EXTRACT) return mkExtract(a->a, hi + (unsigned)a->lo, lo + (unsigned)a->lo);
  if (a->k == K_CONCAT) { unsigned n = a->b->w; if (hi < n) return mkExtract(a->b, hi, lo); if (lo >= n) return mkExtract(a->a, hi - n, lo - n);
    return mkConcat(mkExtract(a->a, hi - n, 0), mkExtract(a->b, n - 1, lo)); }
  if (a->k == K_ZEXT) { unsigned n = a->a->w; if (lo >= n) return bvc(0, w); if (hi < n) return a->a->w == 1 ? a->a : mkExtract(a->a, hi, lo);
    if (n == 1) { return mkZext(a->a, w); } return mkZext(mkExtract(a->a, n - 1, lo), w); }
  if (a->k == K_SEXT && hi < a->a->w) return a->a->w == 1 ? a->a : mkExtract(a->a, hi, lo);
  if (a->k == K_ITE && (isC(a->b) || isC(a->c))) return mkITE(a->a, mkExtract(a->b, hi, lo), mkExtract(a->c, hi, lo));
  if (a->k == K_IB) {
    E x = a->a;
    if (lo == 0 && ibFits(x, w) && w > 1) return ibwrap(x, w);
    E u = asUns(x, a->w); E r = imodc(idivc(u, (i128)1 << lo), (i128)1 << w);
    if (isIC(r)) return bvc((u128)r->lc, w);
    if (w == 1) return bnot(ieq0(r));
    return ibwrap(r, w);
  }
  if (lo == 0 && (a->k == K_ADD || a->k == K_MUL || a->k == K_AND || a->k == K_OR || a->k == K_XOR) && w > 1 && w <= 64 && a->w <= 64 && (a->a->k == K_ZEXT || a->b->k == K_ZEXT || isC(a->b))) return mkBin(a->k, mkExtract(a->a, hi, lo), mkExtract(a->b, hi, lo));
  u64 umax = w <= 64 ? (u64)maskw(w) : 0, umin = 0;
  if (a->w <= 64) { if (lo == 0 && a->umax <= umax) { umin = a->umin; umax = a->umax; } else if (hi == a->w - 1) { umin = a->umin >> lo; umax = a->umax >> lo; } }
  if (w <= 64 && umin == umax) return bvc(umin, w);
  if (w == 1) { // boolean: express as comparison-free extract -> EQ 1
    E x = mkBoundBV(K_EXTRACT, 2, a, nullptr, nullptr, hi == a->w - 1 ? lo - 1 : lo, 0, 0, 3);
    if (a->w == 2) x = a;
    // bit of x: position 0 if lo, or 1 if lo-1 was used
    unsigned bit = (a->w == 2) ? lo : (hi == a->w - 1 ? 1 : 0);
    return mk0(K_EQ, 1, mk0(K_AND, 2, x, bvc((u128)1 << bit, 2)), bvc((u128)1 << bit, 2));
  }
  return mkBoundBV(K_EXTRACT, w, a, nullptr, nullptr, lo, 0, umin, umax);
}
E mkConcat(E h, E l) {
  if (l->w == 0) return h; unsigned w = h->w + l->w;
  if (h->w == 1 || l->w == 1) { // bare bools: go through zero extension (kept as BV, not re-folded)
    E zh = mkZext(h, w), zl = mkZext(l, w); if (isC(zh) && isC(zl)) return bvc((cval(zh) << l->w) | cval(zl), w);
    if (isC(zh) && cval(zh) == 0) return zl;
    if (h->w == 1) zh = mkITE(h, bvc((u128)1 << l->w, w), bvc(0, w)); else { if (l->w != 1) throw Unsupported("concat"); zh = mk0(K_SHL, w, zh, bvc(1, w)); }
    return mk0(K_OR, w, zh, zl); }
  if ((h->k == K_DY || l->k == K_DY) && w > 64) throw Unsupported("bit-level use of a dyadic float: concat");
  if (w <= 64 && anyIB(h, l)) { E x, y; if (toInt(h, x) && toInt(l, y)) {
      E r = iadd(imulc(asUns(x, h->w), (i128)1 << l->w), asUns(y, l->w)); // (terms may have merged: the bounds are known anyway)
      if (!isIC(r)) { const_cast<Expr *>(r)->imin = std::max(r->imin, (i128)0); const_cast<Expr *>(r)->imax = std::min(r->imax, (i128)maskw(w)); }
      return ibwrap(r, w); } }
  if (isC(h) && isC(l)) return bvc((cval(h) << l->w) | cval(l), w);
  if (isC(h) && cval(h) == 0) return mkZext(l, w);
  if (h->k == K_EXTRACT && l->k == K_EXTRACT && h->a == l->a && h->lo == l->lo + l->w) return mkExtract(h->a, (unsigned)h->lo + h->w - 1, (unsigned)l->lo);
  if (l->k == K_CONCAT && h->k == K_EXTRACT && l->a->k == K_EXTRACT && h->a == l->a->a && h->lo == l->a->lo + l->a->w) return mkConcat(mkConcat(h, l->a), l->b);
  if (h->k == K_CONCAT) return mkConcat(h->a, mkConcat(h->b, l)); // right-assoc
  u64 lo = 0, hi = w <= 64 ? (u64)maskw(w) : 0;
  if (w <= 64) { lo = (h->umin << l->w) | l->umin; hi = (h->umax << l->w) | l->umax; if (l->w >= 64) lo = 0; }
  return mkBoundBV(K_CONCAT, w, h, l, nullptr, 0, 0, lo, hi);
}
E mkZext(E a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return bvc(cval(a), w);
  if (a->w == 1) return mkITE(a, bvc(1, w), bvc(0, w));
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  if (constITE(a)) return mkITE(a->a, mkZext(a->b, w), mkZext(a->c, w));
  if (a->k == K_IB && w <= 64) return ibwrap(asUns(a->a, a->w), w);
  return mkBoundBV(K_ZEXT, w, a, nullptr, nullptr, 0, 0, a->umin, a->umax);
}
E mkSext(E a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return bvc((u128)sextw(cval(a), a->w), w);
  if (a->w == 1) return mkITE(a, bvc(~(u128)0, w), bvc(0, w));
  if (constITE(a)) return mkITE(a->a, mkSext(a->b, w), mkSext(a->c, w));
  if (a->k == K_ZEXT && a->a->w < a->w) return mkZext(a->a, w);
  if (a->k == K_IB && w <= 64) return ibwrap(asSig(a->a, a->w), w);
  if (a->w <= 64 && a->umax < ((u64)1 << (a->w - 1))) return mkZext(a, w);
  return mk0(K_SEXT, w, a);
}
static bool dyCommon(E a, E b, E &x, E &y, int &sh);
E mkITE(E c, E a, E b) {
  if (isC(c)) return c->lo ? a : b; if (a == b) return a;
  if (a->w == 1) return bor(band(c, a), band(bnot(c), b));
  if (c->k == K_BNOT) return mkITE(c->a, b, a);
  if (a->k == K_ITE && a->a == c) return mkITE(c, a->b, b);
  if (b->k == K_ITE && b->a == c) return mkITE(c, a, b->c);
  if (a->k == K_DY || b->k == K_DY) { E x, y; int sh; if (!dyCommon(a, b, x, y, sh)) throw Unsupported("ite of dyadic and non-dyadic"); return dywrap(iite(c, x, y), sh, a->w); }
  if (a->w <= 64 && (a->k == K_IB || b->k == K_IB)) { E x, y; if (toInt(a, x) && toInt(b, y)) {
      E r = iite(c, x, y); if (ibFits(r, a->w)) return ibwrap(r, a->w);
      r = iite(c, asUns(x, a->w), asUns(y, a->w)); return ibwrap(r, a->w); } }
  u64 lo = 0, hi = 0; if (a->w <= 64) { lo = std::min(a->umin, b->umin); hi = std::max(a->umax, b->umax); }
  return mkBoundBV(K_ITE, a->w, c, a, b, 0, 0, lo, hi);
}
E mkEQ(E a, E b) {
  if (a == b) return bconst(true);
  if (a->w == 1) return bnot(bxor(a, b));
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return bconst(cval(a) == cval(b));
  if (a->k == K_DY && isC(b)) { // bitwise equality with a constant float
    E n; int sh; if (cval(b) != 0 && constDyadic(b, n, sh)) return mkFCmp(K_FOEQ, a, b);
  }
  if (a->w <= 64 && (a->umin > b->umax || b->umin > a->umax)) return bconst(false);
  if (isC(b)) {
    if (a->k == K_ITE && (isC(a->b) || isC(a->c))) return mkITE(a->a, mkEQ(a->b, b), mkEQ(a->c, b));
    if (a->k == K_ZEXT) { if (cval(b) > maskw(a->a->w)) return bconst(false); return mkEQ(a->a, mkExtract(b, a->a->w - 1, 0)); }
    if (a->k == K_CONCAT) return band(mkEQ(a->a, mkExtract(b, a->w - 1, a->b->w)), mkEQ(a->b, mkExtract(b, a->b->w - 1, 0)));
    if (a->k == K_ADD && isC(a->b)) return mkEQ(a->a, bvc(cval(b) - cval(a->b), a->w));
    if (a->k == K_XOR && isC(a->b)) return mkEQ(a->a, bvc(cval(b) ^ cval(a->b), a->w));
  }
  E x, y;
  if (a->w <= 64 && anyIB(a, b) && toInt(a, x) && toInt(b, y)) {
    i128 span = std::max(x->imax, y->imax) - std::min(x->imin, y->imin);
    if (span < ((i128)1 << a->w)) return ieq0(isub(x, y));
    return ieq0(isub(asUns(x, a->w), asUns(y, a->w)));
  }
  if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return band(mkEQ(a->a, b->a), mkEQ(a->b, b->b));
  if (a->k == K_DY && b->k == K_DY) { return mkFCmp(K_FOEQ, a, b); } // sign of zero is not tracked
  if (a->id > b->id) std::swap(a, b);
  return mk0(K_EQ, 1, a, b);
}
E mkCmp(Kind k, E a, E b) {
  unsigned w = a->w;
  if (w == 1) { if (k == K_ULT || k == K_SLT) { if (k == K_SLT) std::swap(a, b); return band(bnot(a), b); } if (k == K_SLE) std::swap(a, b); return bor(bnot(a), b); }
  if (isC(a) && isC(b)) { u128 x = cval(a), y = cval(b); i128 sx = sextw(x, w), sy = sextw(y, w);
    switch (k) { case K_ULT: return bconst(x < y); case K_ULE: return bconst(x <= y); case K_SLT: return bconst(sx < sy); default: return bconst(sx <= sy); } }
  if (a == b) return bconst(k == K_ULE || k == K_SLE);
  if (constITE(a) && isC(b)) return mkITE(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
  if (constITE(b) && isC(a)) return mkITE(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
  E x, y;
  if (w <= 64 && anyIB(a, b) && toInt(a, x) && toInt(b, y)) {
    if (k == K_ULT || k == K_ULE) { x = asUns(x, w); y = asUns(y, w); } else { x = asSig(x, w); y = asSig(y, w); }
    E d = isub(x, y); if (k == K_ULT || k == K_SLT) d = iadd(d, iconst(1)); return ile0(d);
  }
  if (w <= 64) {
    if (k == K_ULT) { if (a->umax < b->umin) return bconst(true); if (a->umin >= b->umax) return bconst(false); }
    if (k == K_ULE) { if (a->umax <= b->umin) return bconst(true); if (a->umin > b->umax) return bconst(false); }
    u64 h = (u64)1 << (w - 1);
    if ((k == K_SLT || k == K_SLE) && a->umax < h && b->umax < h) return mkCmp(k == K_SLT ? K_ULT : K_ULE, a, b);
  }
  if (k == K_ULT || k == K_ULE) {
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkCmp(k, a->a, b->a);
    if (a->k == K_ZEXT && isC(b)) { if (cval(b) <= maskw(a->a->w)) return mkCmp(k, a->a, mkExtract(b, a->a->w - 1, 0)); return bconst(true); }
    if (b->k == K_ZEXT && isC(a)) { if (cval(a) <= maskw(b->a->w)) return mkCmp(k, mkExtract(a, b->a->w - 1, 0), b->a); return bconst(false); }
    if (k == K_ULT && isC(b) && cval(b) == 1) return mkEQ(a, bvc(0, w));
  }
  return mk0(k, 1, a, b);
}

// ---------- Floats ----------
bool constDyadic(E c, E &n, int &sh) {
  if (c->k != K_BVCONST) return false;
  double d = bitsToD(cval(c), c->w); if (!std::isfinite(d)) return false;
  if (d == 0) { n = iconst(0); sh = 0; return true; }
  int e; double m = std::frexp(d, &e); // d = m*2^e, 0.5<=|m|<1
  long long k = (long long)std::ldexp(m, 53); e -= 53; while (k % 2 == 0) { k /= 2; e++; }
  if (e >= 0) { if (e > 40) return false; n = iconst((i128)k << e); sh = 0; return true; }
  if (-e > 60) return false; n = iconst(k); sh = -e; return true;
}
static bool dyOf(E e, E &x, int &sh) { if (e->k == K_DY) { x = e->a; sh = e->sh; return true; } if (e->k == K_ITE && isC(e->b) && isC(e->c)) { E p, q; int s1, s2; if (constDyadic(e->b, p, s1) && constDyadic(e->c, q, s2)) { int m = std::max(s1, s2); x = iite(e->a, imulc(p, (i128)1 << (m - s1)), imulc(q, (i128)1 << (m - s2))); sh = m; return true; } } return constDyadic(e, x, sh); }
static bool dyCommon(E a, E b, E &x, E &y, int &sh) {
  int s1, s2; if (!dyOf(a, x, s1) || !dyOf(b, y, s2)) return false;
  sh = std::max(s1, s2); if (sh - s1) x = imulc(x, (i128)1 << (sh - s1)); if (sh - s2) y = imulc(y, (i128)1 << (sh - s2)); return true;
}
E dywrap(E x, int sh, unsigned fw) {
  // reduce common power of two
  while (sh > 0 && x->k == K_ILIN && x->lc % 2 == 0 && std::all_of(x->lin.begin(), x->lin.end(), [](auto &p) { return p.second % 2 == 0; })) {
    if (isIC(x)) { x = iconst(x->lc / 2); } else x = idivc(x, 2); sh--; }
  i128 lim = (i128)1 << (fw == 32 ? 24 : 53);
  if (x->imin < -lim || x->imax > lim) {
    // exact if all terms share a power-of-two factor
    i128 g = 0; if (x->k == K_ILIN) { g = igcd(g, x->lc); for (auto &p : x->lin) g = igcd(g, p.second); }
    i128 p2 = 1; while (g && g % (p2 * 2) == 0 && p2 < ((i128)1 << 60)) p2 *= 2;
    if (x->imin < -lim * p2 || x->imax > lim * p2) throw Unsupported("float arithmetic leaves the exact dyadic range: " + show(x,14) + " / 2^" + std::to_string(sh));
  }
  if (isIC(x)) return bvc(dToBits(std::ldexp((double)x->lc, -sh), fw), fw);
  Expr t; t.k = K_DY; t.w = fw; t.a = x; t.sh = sh; t.umin = 0; t.umax = (u64)maskw(fw);
  return P.intern(t);
}
static double fop(Kind k, double x, double y, unsigned w) {
  if (w == 32) { float a = (float)x, b = (float)y; switch (k) { case K_FADD: return a + b; case K_FSUB: return a - b; case K_FMUL: return a * b; case K_FDIV: return a / b; case K_FMIN: return std::fmin(a, b); case K_FMAX: return std::fmax(a, b); default: throw Unsupported("fop"); } }
  switch (k) { case K_FADD: return x + y; case K_FSUB: return x - y; case K_FMUL: return x * y; case K_FDIV: return x / y; case K_FMIN: return std::fmin(x, y); case K_FMAX: return std::fmax(x, y); default: throw Unsupported("fop"); }
}
static bool isPow2(i128 v) { return v > 0 && (v & (v - 1)) == 0; }
E mkF2(Kind k, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return bvc(dToBits(fop(k, bitsToD(cval(a), w), bitsToD(cval(b), w), w), w), w);
  E x, y; int s1, s2;
  bool dy = (a->k == K_DY || b->k == K_DY);
  if (dy) {
    if (k == K_FMIN || k == K_FMAX) {
      // infinities and huge constants are decided by bounds
      for (int i = 0; i < 2; i++) { E c = i ? b : a, o = i ? a : b; if (isC(c)) { double d = bitsToD(cval(c), w); if (std::isnan(d)) return o; if (std::fabs(d) > 1e15) return ((d > 0) == (k == K_FMIN)) ? o : c; } }
    }
    if (dyOf(a, x, s1) && dyOf(b, y, s2)) {
      int s = std::max(s1, s2);
      auto al = [&](E v, int sv) { return s == sv ? v : imulc(v, (i128)1 << (s - sv)); };
      switch (k) {
        case K_FADD: return dywrap(iadd(al(x, s1), al(y, s2)), s, w);
        case K_FSUB: return dywrap(isub(al(x, s1), al(y, s2)), s, w);
        case K_FMUL: return dywrap(imul(x, y), s1 + s2, w);
        case K_FMIN: return dywrap(imin2(al(x, s1), al(y, s2)), s, w);
        case K_FMAX: return dywrap(imax2(al(x, s1), al(y, s2)), s, w);
        case K_FDIV:
          if (isIC(y)) { i128 d = y->lc; bool neg = d < 0; if (neg) d = -d; if (isPow2(d)) { int n = 0; while (((i128)1 << n) != d) n++; E r = imulc(x, ((i128)1 << s2)); if (neg) r = imulc(r, -1); return dywrap(r, s1 + n, w); }
            if (d > 0) { // exact if every coefficient divisible
              E r = imulc(x, ((i128)1 << s2)); bool ok = r->k == K_ILIN && r->lc % d == 0; if (ok) for (auto &p : r->lin) if (p.second % d) ok = false;
              if (ok) { r = idivc(r, d); if (neg) r = imulc(r, -1); return dywrap(r, s1, w); } } }
          throw Unsupported("inexact dyadic division");
        default: break;
      }
    }
    if (a->k == K_DY && isC(b) && k == K_FDIV && std::isinf(bitsToD(cval(b), w))) return bvc(0, w);
    if (k == K_FADD || k == K_FSUB) for (int i = 0; i < 2; i++) { E c = i ? b : a; if (!isC(c)) continue; double d = bitsToD(cval(c), w);
      if (!std::isfinite(d)) return std::isnan(d) || i == 0 || k == K_FADD ? c : bvc(dToBits(-d, w), w); }
    throw Unsupported("dyadic arithmetic with a non-dyadic operand");
  }
  return mk0(k, w, a, b);
}
E dyRound(E d, int mode) {
  E x = d->a; i128 m = (i128)1 << d->sh; E r;
  auto fl = [&](E v) { return idivc(v, m); };
  auto ce = [&](E v) { return imulc(idivc(imulc(v, -1), m), -1); };
  switch (mode) {
    case 0: r = fl(x); break; case 1: r = ce(x); break;
    case 2: r = x->imin >= 0 ? fl(x) : iite(ile0(x), ce(x), fl(x)); break;
    case 3: { if (d->sh == 0) return d; E h = iconst(m / 2); E p = fl(iadd(x, h)), n = ce(isub(x, h)); r = iite(ile0(x), n, p); break; }
    default: throw Unsupported("rint");
  }
  return dywrap(r, 0, d->w);
}
E mkF1(Kind k, E a, unsigned ow, int extra) {
  unsigned w = a->w;
  if (isC(a)) {
    double d = bitsToD(cval(a), w);
    switch (k) {
      case K_FNEG: return bvc(cval(a) ^ ((u128)1 << (w - 1)), w); case K_FABS: return bvc(cval(a) & ~((u128)1 << (w - 1)), w);
      case K_FPEXT: return bvc(dToBits(d, 64), 64); case K_FPTRUNC: return bvc(dToBits(d, 32), 32);
      case K_FSQRT: return bvc(dToBits(w == 32 ? (double)std::sqrt((float)d) : std::sqrt(d), w), w);
      case K_FRND: { double r; switch (extra) { case 0: r = std::floor(d); break; case 1: r = std::ceil(d); break; case 2: r = std::trunc(d); break; case 3: r = std::round(d); break; default: r = std::nearbyint(d); } return bvc(dToBits(r, w), w); }
      default: break;
    }
  }
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkITE(a->a, mkF1(k, a->b, ow, extra), mkF1(k, a->c, ow, extra));
  if (a->k == K_DY) switch (k) {
    case K_FNEG: return dywrap(imulc(a->a, -1), a->sh, w); case K_FABS: return dywrap(iabs(a->a), a->sh, w);
    case K_FPEXT: return dywrap(a->a, a->sh, 64); case K_FPTRUNC: return dywrap(a->a, a->sh, 32);
    case K_FRND: return dyRound(a, extra);
    default: throw Unsupported("float op on dyadic");
  }
  if (k == K_FNEG) return mkBin(K_XOR, a, bvc((u128)1 << (w - 1), w));
  if (k == K_FABS) return mkBin(K_AND, a, bvc(maskw(w - 1), w));
  return mk0(k, ow, a, nullptr, nullptr, extra);
}
E mkFCmp(Kind k, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) { double x = bitsToD(cval(a), w), y = bitsToD(cval(b), w); switch (k) { case K_FOEQ: return bconst(x == y); case K_FOLT: return bconst(x < y); case K_FOLE: return bconst(x <= y); default: return bconst(std::isnan(x) || std::isnan(y)); } }
  if (a->k == K_ITE && isC(a->b) && isC(a->c) && isC(b)) return mkITE(a->a, mkFCmp(k, a->b, b), mkFCmp(k, a->c, b));
  if (b->k == K_ITE && isC(b->b) && isC(b->c) && isC(a)) return mkITE(b->a, mkFCmp(k, a, b->b), mkFCmp(k, a, b->c));
  if (a->k == K_DY || b->k == K_DY) {
    for (int i = 0; i < 2; i++) { E c = i ? b : a; if (isC(c)) { double d = bitsToD(cval(c), w); if (std::isnan(d)) return bconst(k == K_FUNO); if (std::fabs(d) > 1e15) {
          bool cIsB = i; switch (k) { case K_FOEQ: return bconst(false); case K_FUNO: return bconst(false); default: return bconst(cIsB ? d > 0 : d < 0); } } } }
    E x, y; int sh;
    if (dyCommon(a, b, x, y, sh)) { E d = isub(x, y); switch (k) { case K_FOEQ: return ieq0(d); case K_FOLT: return ile0(iadd(d, iconst(1))); case K_FOLE: return ile0(d); default: return bconst(false); } }
    throw Unsupported("compare dyadic with non-dyadic: " + show(a,4) + " / " + show(b,4));
  }
  return mk0(k, 1, a, b);
}
E fToInt(E a, unsigned ow, bool sgn, bool sat) {
  if (isC(a)) {
    double d = bitsToD(cval(a), a->w); if (std::isnan(d)) return bvc(0, ow);
    double lo = sgn ? -std::ldexp(1, ow - 1) : 0, hi = sgn ? std::ldexp(1, ow - 1) : std::ldexp(1, ow);
    d = std::trunc(d); if (d < lo) return bvc(sgn ? (u128)1 << (ow - 1) : 0, ow); if (d >= hi) return bvc(sgn ? maskw(ow - 1) : maskw(ow), ow);
    return bvc(d < 0 ? (u128)(i128)d : (u128)d, ow);
  }
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkITE(a->a, fToInt(a->b, ow, sgn, sat), fToInt(a->c, ow, sgn, sat));
  if (a->k == K_DY) {
    E t = dyRound(a, 2); E x; int s; if (!dyOf(t, x, s)) throw Unsupported("fptoi");
    i128 lo = sgn ? -((i128)1 << (ow - 1)) : 0, hi = sgn ? ((i128)1 << (ow - 1)) - 1 : (i128)maskw(ow);
    x = imax2(imin2(x, iconst(hi)), iconst(lo)); return ibwrap(x, ow);
  }
  return mk0(sgn ? K_FPTOSI : K_FPTOUI, ow, a, nullptr, nullptr, sat);
}
E intToF(E a, unsigned fw, bool sgn) {
  if (isC(a)) { u128 v = cval(a); if (sgn) { i128 s = sextw(v, a->w); return bvc(fw == 32 ? dToBits((double)(float)s, 32) : dToBits((double)s, 64), fw); } return bvc(fw == 32 ? dToBits((double)(float)v, 32) : dToBits((double)v, 64), fw); }
  if (a->w == 1) return mkITE(a, intToF(bvc(1, 1), fw, sgn), intToF(bvc(0, 1), fw, sgn));
  E x; if (toInt(a, x)) return dywrap(sgn ? asSig(x, a->w) : asUns(x, a->w), 0, fw);
  return mk0(sgn ? K_SITOFP : K_UITOFP, fw, a);
}

// ---------- evaluation ----------
static u128 ev(E e, const std::vector<u128> &m);
static i128 evi(E e, const std::vector<u128> &m) { return (i128)ev(e, m); }
static u128 ev(E e, const std::vector<u128> &m) {
  if (e->stamp == evalStamp) return e->val;
  u128 r = 0; unsigned w = e->w;
  switch (e->k) {
    case K_BVCONST: case K_BCONST: r = cval(e); break;
    case K_BVVAR: case K_BVAR: r = e->hi < m.size() ? m[e->hi] : 0; r &= maskw(w); if (e->k == K_BVVAR && w <= 64 && (r < e->umin || r > e->umax)) r = e->umin; break;
    case K_IVAR: { i128 v = e->hi < m.size() ? (i128)m[e->hi] : 0; if (v < e->imin || v > e->imax) v = e->imin; r = (u128)v; break; }
    case K_ADD: case K_SUB: case K_MUL: case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: case K_AND: case K_OR: case K_XOR: case K_SHL: case K_LSHR: case K_ASHR:
      r = foldBin(e->k, ev(e->a, m), ev(e->b, m), w); break;
    case K_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case K_EXTRACT: r = (ev(e->a, m) >> (unsigned)e->lo) & maskw(w); break;
    case K_ZEXT: r = ev(e->a, m); break;
    case K_SEXT: r = (u128)sextw(ev(e->a, m), e->a->w) & maskw(w); break;
    case K_ITE: case K_IITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case K_IB: r = ev(e->a, m) & maskw(w); break;
    case K_DY: r = dToBits(std::ldexp((double)evi(e->a, m), -e->sh), w); break;
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FMIN: case K_FMAX: r = dToBits(fop(e->k, bitsToD(ev(e->a, m), w), bitsToD(ev(e->b, m), w), w), w); break;
    case K_FPEXT: r = dToBits(bitsToD(ev(e->a, m), 32), 64); break;
    case K_FPTRUNC: r = dToBits(bitsToD(ev(e->a, m), 64), 32); break;
    case K_FSQRT: case K_FRND: r = cval(mkF1(e->k, bvc(ev(e->a, m), w), w, (int)e->lo)); break;
    case K_SITOFP: case K_UITOFP: r = cval(intToF(bvc(ev(e->a, m), e->a->w), w, e->k == K_SITOFP)); break;
    case K_FPTOSI: case K_FPTOUI: r = cval(fToInt(bvc(ev(e->a, m), e->a->w), w, e->k == K_FPTOSI, true)); break;
    case K_BNOT: r = !ev(e->a, m); break;
    case K_BAND: r = ev(e->a, m) && ev(e->b, m); break;
    case K_BOR: r = ev(e->a, m) || ev(e->b, m); break;
    case K_BXOR: r = ev(e->a, m) != ev(e->b, m); break;
    case K_EQ: r = ev(e->a, m) == ev(e->b, m); break;
    case K_ULT: r = ev(e->a, m) < ev(e->b, m); break;
    case K_ULE: r = ev(e->a, m) <= ev(e->b, m); break;
    case K_SLT: r = sextw(ev(e->a, m), e->a->w) < sextw(ev(e->b, m), e->a->w); break;
    case K_SLE: r = sextw(ev(e->a, m), e->a->w) <= sextw(ev(e->b, m), e->a->w); break;
    case K_FOEQ: r = bitsToD(ev(e->a, m), e->a->w) == bitsToD(ev(e->b, m), e->a->w); break;
    case K_FOLT: r = bitsToD(ev(e->a, m), e->a->w) < bitsToD(ev(e->b, m), e->a->w); break;
    case K_FOLE: r = bitsToD(ev(e->a, m), e->a->w) <= bitsToD(ev(e->b, m), e->a->w); break;
    case K_FUNO: r = std::isnan(bitsToD(ev(e->a, m), e->a->w)) || std::isnan(bitsToD(ev(e->b, m), e->a->w)); break;
    case K_ILE: r = evi(e->a, m) <= 0; break;
    case K_IEQ: r = evi(e->a, m) == 0; break;
    case K_ILIN: { i128 s = e->lc; for (auto &p : e->lin) s += p.second * evi(p.first, m); r = (u128)s; break; }
    case K_IDIV: r = (u128)fdiv(evi(e->a, m), (i128)(((u128)e->hi << 64) | e->lo)); break;
    case K_IMUL: r = (u128)(evi(e->a, m) * evi(e->b, m)); break;
    default: throw Unsupported("eval kind");
  }
  e->stamp = evalStamp; e->val = r; return r;
}
u128 evalE(E e, const std::vector<u128> &m) { evalStamp++; return ev(e, m); }

std::string show(E e, int d) {
  static const char *nm[] = {"const", "bv", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "IB", "DY", "fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "frnd", "fmin", "fmax", "fsqrt", "bconst", "bvar", "not", "and", "or", "xor", "=", "u<", "u<=", "s<", "s<=", "f=", "f<", "f<=", "funo", "ile0", "ieq0", "ivar", "ilin", "iite", "idiv", "imul"};
  if (isC(e)) return std::to_string((u64)cval(e)) + ":" + std::to_string(e->w);
  if (e->k == K_BVVAR || e->k == K_IVAR || e->k == K_BVAR) return "v" + std::to_string(e->hi);
  if (d == 0) return "...";
  if (e->k == K_ILIN) { std::string s = "("; for (auto &p : e->lin) s += std::to_string((long long)p.second) + "*" + show(p.first, d - 1) + " + "; return s + std::to_string((long long)e->lc) + ")"; }
  std::string s = std::string("(") + nm[e->k]; if (e->k == K_EXTRACT) s += "[" + std::to_string(e->lo) + "+" + std::to_string(e->w) + "]"; if (e->k == K_DY) s += "/2^" + std::to_string(e->sh);
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + show(x, d - 1); return s + ")";
}
